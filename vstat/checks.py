"""The checks: one function per property, each runs its rules over the roots it quantifies over."""
from terms import *
from world import World
from engine import State
from ir import BrokenAnalysis, REPO
import os, re
import affine
from rules import timing, locks, tokens, wake, ipc, names, threads, messages, registry, segment, widths, ids, formats, restart, moves, carry, objects

CHECKS = {}


def check(pid, technique, rule_text):
    def deco(f):
        CHECKS[pid] = (f, technique, rule_text)
        return f
    return deco


class Ctx:
    """one run of a check"""
    def __init__(self, tier, W=None):
        self.tier = tier
        self.thorough = tier == "thorough"
        self.W = W or World()
        self.P = self.W.P
        self.rules = []
        self.keep = lambda v: True
        self.started = []    # rules of runs that may not have been completed
        self.roots = []
        self.notes = []
        self.functions = set()
        self.blocks = set()
        self.states = 0
        self.steps = 0
        self.unknown = {}

    def done(self, E, rules):
        for r in rules:
            if r not in self.rules: self.rules.append(r)
        self.functions |= {self.P.funcs[f].nm.base for f in E.funcs_done}
        self.blocks |= E.blocks_done
        self.states += E.nstates
        self.steps += E.steps
        for k, v in E.unknown.items(): self.unknown[k] = self.unknown.get(k, 0) + v

    def root(self, rules, name, f, st=None, this=None, setup=None, **kw):
        self.started += [r for r in rules if r not in self.started]
        E = self.W.engine(rules, **kw)
        if setup: setup(E)
        self.roots.append(name)
        outs = self.W.run(E, f, name, st, this)
        self.done(E, rules)
        return outs

    def api(self, rules, setup=None, **kw):
        for n, f in self.W.api(): self.root(rules, n, f, setup=setup, **kw)

    def threads(self, rules, setup=None, **kw):
        for n, f, _ in self.W.thread_roots(): self.root(rules, n, f, setup=setup, **kw)

    def functors(self, rules, **kw):
        for n, f in self.W.functors(): self.root(rules, n, f, **kw)

    def life(self, rules, steps=("ctor", "init", "uninit"), pick=None, setup=None, **kw):
        self.started += [r for r in rules if r not in self.started]
        E = self.W.engine(rules, **kw)
        if setup: setup(E)
        self.roots.append("+".join(steps))
        outs = self.W.lifecycle(E, steps, pick)
        self.done(E, rules)
        return outs


def full_life(ctx):
    return ("ctor", "init", "uninit", "init", "uninit", "dtor") if ctx.thorough else ("ctor", "init", "uninit", "dtor")


# ---------------------------------------------------------------------------------------------------- calls
def call_rules(ctx):
    sp = tokens.CallSpec(ctx.P)
    combo = tokens.Combo()
    r = tokens.CallTokens(sp, collect=combo)
    r.release_roots = ("releaseCall",)
    ctx.api([r])
    dis = tuple(sorted({o for d in combo.set for o, _ in d}))
    out = [r]
    r2 = tokens.CallTokens(sp, combos=combo)
    r2.combo_dis = dis
    ctx.threads([r2])
    r3 = tokens.CallTokens(sp, combos=combo)
    r3.combo_dis = dis
    ctx.life([r3])
    ctx.notes.append("discriminators of queued calls: %s" % sorted((tuple(d), v) for d, v in combo.set.items()))
    ctx.notes.append("containers that carry calls: %s" % sorted(set(r.conts) | set(r2.conts) | set(r3.conts)))
    return [r, r2, r3]


C05_KINDS = ("push-before-register",)


@check("C01", "interprocedural typestate analysis of call obligations", "linear obligation: created by an API call, moved through containers, discharged exactly once")
def c01(ctx):
    ctx.keep = lambda v: v["kind"] not in C05_KINDS
    call_rules(ctx)


@check("C05", "interprocedural typestate analysis (happens-before of registration and push)", "a call is registered in the response registry before its message is pushed")
def c05(ctx):
    ctx.keep = lambda v: v["kind"] in C05_KINDS
    call_rules(ctx)


@check("C02", "lockset / typestate analysis of the inter-process lock", "segment operations only under the lock, balanced, never waiting under it")
def c02(ctx):
    r = locks.QueueLock()
    ctx.api([r])
    ctx.threads([r])
    ctx.life([r], full_life(ctx))
    p = locks.RwPrimitive()
    for tag, m in (("lock", "processRWLock"), ("unlock", "processRWUnlock")):
        fs = ctx.W.method("veigar::MessageQueue", m)
        if len(fs) != 1: raise BrokenAnalysis("MessageQueue::%s not found" % m)
        ctx.root([p], tag, fs[0], queue_prims=False)
    p.finish()
    lock_roles(ctx, ("lock", "names"))


@check("C04", "lock-order and balance analysis", "mutexes balanced on all exits, acyclic order, no user code or unbounded wait while one is held")
def c04(ctx):
    r = locks.Deadlock()
    ctx.api([r])
    ctx.threads([r])
    ctx.life([r], full_life(ctx))
    r.finish()


@check("C03", "lockset (Eraser-style) analysis over thread roles", "every shared field has a common lock at all concurrent accesses, or is atomic")
def c03(ctx):
    W = ctx.W
    roles = {n: n for n, _, _ in W.thread_roots()}
    for n, _ in W.api(): roles[n] = "api"
    roles["functor"] = roles.get("functor", "functor")
    r = locks.Lockset(roles)
    ctx.api([r])
    ctx.threads([r])

    # helpers that the other rules take for granted run in every thread
    for f in ctx.P.funcs.values():
        if f.nm.base in W.printf and ctx.P.own(f):
            roles[f.nm.dem] = "api"
            try: ctx.root([r], f.nm.dem, f)
            except BrokenAnalysis as e: ctx.notes.append("%s: only in part: %s" % (f.nm.dem, e))

    def setup(E): E.heap_shared = True
    for s in (("ctor", "init", "uninit"),):
        for i in range(1, len(s) + 1): roles["+".join(s[:i])] = "life"
        ctx.life([r], s, setup=setup)
    r.finish()


@check("C06", "typestate / happens-before analysis of wake-up signals", "every queued message is announced after it was queued, every consumed signal leads to a drained queue")
def c06(ctx):
    r = wake.Wake(wake.workers(ctx))
    if not r.by_cont and not any(i.queues for i in r.infos.values()): raise BrokenAnalysis("no worker waits for anything")
    ctx.api([r])
    ctx.threads([r])
    ctx.functors([r])
    ctx.life([r], full_life(ctx))
    lock_roles(ctx, ("signal", "names"))


@check("C13", "ownership (typestate) analysis of system resources", "descriptors, mappings, semaphores and names are released exactly once on every path through create / open / close / destruction, none is used afterwards")
def c13(ctx):
    W = ctx.W
    T_, F_ = ipc.truth_pick(True), ipc.truth_pick(False)
    seqs = []
    for a in ("create", "open"):
        for b in ("close", None):
            seqs.append([("MessageQueue", None), (a, T_)] + ([(b, None)] if b else []) + [("~MessageQueue", None)])
        seqs.append([("MessageQueue", None), (a, F_), ("~MessageQueue", None)])
    seqs.append([("MessageQueue", None), ("create", T_), ("close", None), ("close", None), ("create", T_), ("close", None)])
    seqs.append([("MessageQueue", None), ("create", T_), ("close", None), ("open", T_), ("close", None)])
    if ctx.thorough:
        for a in ("create", "open"):
            for b in ("create", "open"):
                for c in (T_, F_):
                    for d in (T_, F_):
                        seqs.append([("MessageQueue", None), (a, c), ("close", None), (b, d), ("~MessageQueue", None)])
    rs = []
    for s in seqs:
        r = ipc.Resources()
        E = W.engine([r], queue_prims=False)
        outs = W.sequence(E, [W.mqstep(n, p) for n, p in s])
        ctx.roots.append("+".join(n for n, _ in s))
        ctx.done(E, [r])
        rs.append(r)
    this = T("param", "this")
    for cls, how in (("SharedMemory", ("create", "open")), ("Semaphore", ("open",))):
        if not W.method("veigar::" + cls, "close"): continue
        for a in how:
            for b in how + (None,):
                st = []
                for n in (cls, a, "close") + ((b, "close") if b else ("close",)):
                    f = W.method("veigar::" + cls, n)
                    if len(f) != 1: st = None; break
                    st.append((n, f[0], [this] + [T("param", "%s.%s" % (cls, x[0])) for x in f[0].args[1:]], T_ if n in how else None))
                if not st: continue
                r = ipc.Resources()
                E = W.engine([r], queue_prims=False)
                W.sequence(E, st)
                ctx.roots.append("+".join(x[0] for x in st))
                ctx.done(E, [r])
    for f in W.method("veigar::Semaphore", "IsExist"):
        r = ipc.Resources(("IsExist",))
        r.step = "IsExist"
        ctx.root([r], "IsExist", f, queue_prims=False)


def lock_roles(ctx, want):
    """names and initial values of the lock and the signal of a queue"""
    r = ipc.queue_roles(ctx)
    if len(r.seen) < 2: raise BrokenAnalysis("the semaphores of the queue were not found")
    c, o = r.names.get("create", {}), r.names.get("open", {})
    if "names" in want:
        for role in ("lock", "signal", "segment"):
            a, b = c.get(role, set()), o.get(role, set())
            r.ok("%s: creator and opener use the same name" % role, "MessageQueue::create / open")
            if a and b and a != b: r.bad("names-differ", "creator and opener use different names for the %s: %s / %s" % (role, sorted(map(show, a)), sorted(map(show, b))))
            for how, n in (("create", a), ("open", b)):
                if len(n) > 1: r.bad("names-differ", "%s uses several objects as %s: %s" % (how, role, sorted(map(show, n))))
        for how, n in (("create", c), ("open", o)):
            if n.get("lock", set()) & n.get("signal", set()): r.bad("names-clash", "%s uses the same semaphore as lock and as read signal" % how)
    for role, init in (("lock", 1), ("signal", 0)):
        if role not in want: continue
        for v in r.values.get(role, ()):
            r.ok("initial value of the %s" % role, "MessageQueue::create")
            if isc(v) and v.a[0] != init: r.bad("initial-value", "the %s of a new queue starts with value %d instead of %d" % (role, v.a[0], init))
            elif v.k in ("ld", "param", "op"): r.bad("initial-value", "the %s of a new queue starts with the value %s instead of %d" % (role, show(v), init))
            elif v.k == "none": r.bad("initial-value", "the %s of a new queue is opened without being created" % role)
    return r


@check("C16", "dataflow analysis of name construction and queue selection", "names are the complete channel plus fixed suffixes that cannot coincide; both sides, caches and shortcuts agree on them")
def c16(ctx):
    roles = lock_roles(ctx, ("names",))
    def setup(E): E.keep_fmt = True
    cr = names.Created()
    ctx.life([cr], ("ctor", "init"), setup=setup)
    if not cr.created: raise BrokenAnalysis("initialisation creates no queue")
    names.distinct(roles, cr.created, roles)
    pr = names.Producers()
    ctx.api([pr])
    rd = names.Readers()
    ctx.threads([rd])
    fronts = set().union(*rd.front.values()) if rd.front else set()
    sufs = lambda root: set().union(*[cr.fields.get(q, set()) for q in rd.queues.get(root, ())]) if rd.queues.get(root) else set()
    kinds, offs = {}, {}
    answering = [r for r in rd.queues if rd.inserts.get(r, set()) & fronts]
    for c, (rts, o) in pr.ins.items():
        if c in fronts: kinds[c], offs[c] = set().union(*[sufs(r) for r in answering]) if answering else set(), o
    for r in answering:
        for c in rd.inserts[r] & fronts:
            kinds[c] = set().union(*[sufs(x) for x in rd.queues if x in rd.completes and x not in answering])
    ctx.notes.append("queues read by receivers of: %s" % {k: sorted(x or "?" for x in v) for k, v in sorted(kinds.items())})
    ctx.notes.append("queue fields: %s" % {k: sorted(x or "?" for x in v) for k, v in sorted(cr.fields.items())})
    ctx.notes.append("own channel name: %s" % sorted(cr.own or ()))
    maps = {}
    # the channel of a response is kept where that of a call is found by its own type
    for n, f, _ in ctx.W.thread_roots():
        mine = rd.front.get(n, set()) & set(kinds)
        if not mine: continue
        c = sorted(mine)[0]
        u = names.Users(cr, {k: v for k, v in kinds.items() if k in mine}, sorted(offs.get(c) or (0,)), maps)
        ctx.root([u], n, f, setup=setup)


def thread_infos(ctx):
    out = {}
    for n, f, _ in ctx.W.thread_roots():
        i = threads.WorkerUse()
        ctx.root([i], n, f)
        out[f.name] = i
    return out


@check("C14", "typestate analysis of thread objects and stop requests", "every started thread is asked to stop, woken and joined before uninit returns; no running thread object is destroyed; queues are closed after their users were joined")
def c14(ctx):
    infos = thread_infos(ctx)
    r = threads.Threads(infos)
    for t, i in sorted(infos.items()):
        r.ok("thread procedure can end", ctx.P.funcs[t].nm.base)
        if i.stop_flags() == () and (i.queues or i.cvs):
            f = ctx.P.funcs[t]
            r.violations[("never-ends", f.nm.base, "")] = {"rule": r.name, "kind": "never-ends", "where": f.where(), "function": f.nm.base, "message": "%s has no way out after it has waited for work, it can not be joined" % f.nm.base, "root": f.nm.base, "callstack": [], "path": []}
    ctx.notes.append("flags that end the threads: %s" % {ctx.P.funcs[t].nm.base: sorted(i.stop_flags() or ()) for t, i in sorted(infos.items())})
    ctx.keep = lambda v: v["kind"] != "stop-flag-set"
    def setup(E): E.heap_shared = True
    ctx.life([r], full_life(ctx), setup=setup)


def init_pick(val):
    def pick(step, st, v):
        return step != "init" or v is None or st.truth(v) is not (not val)
    return pick


@check("C25", "typestate analysis of an instance over init, uninit, init", "the second initialisation starts the same threads and creates the same queues (from its own parameters) as the first, no flag, thread or queue of the previous run is left")
def c25(ctx):
    r = threads.Restart(thread_infos(ctx))
    def setup(E): E.heap_shared = True
    steps = ("ctor", "init", "uninit", "init") + (("uninit", "dtor") if ctx.thorough else ())
    outs = ctx.life([r], steps, init_pick(True), setup=setup)
    if not r.finish(): raise BrokenAnalysis("no successful initialisation found")
    sg = r.sigs
    if len(sg) < 2:
        r.violations[("no-restart", "init", "")] = {"rule": r.name, "kind": "no-restart", "where": "veigar::Veigar::init", "function": "veigar::Veigar::init", "message": "the initialisation that follows uninit can not succeed", "root": "+".join(steps), "callstack": [], "path": []}
    r.ok("second initialisation like the first", "veigar::Veigar::init")
    ctx.notes.append("first and second initialisation: %s" % {k: [[sorted(map(str, x)) for x in s] for s in v] for k, v in sg.items()})


def init_seq(*vals):
    """the n-th initialisation returns vals[n]"""
    def pick(step, st, v):
        if step != "init": return True
        n = st.rs.get("#ninit", C(0)).a[0]
        st.rs["#ninit"] = C(n + 1)
        return v is None or n >= len(vals) or vals[n] is None or st.truth(v) is not (not vals[n])
    return pick


@check("C18", "typestate analysis of failing initialisations", "on every path on which init returns false: no thread runs, created queues are closed or dropped, nothing uncreated is dereferenced, and a following init starts the same threads and queues as on a new instance")
def c18(ctx):
    infos = thread_infos(ctx)
    r = threads.Restart(infos)
    r.mode = "fail"
    def setup(E): E.heap_shared = True
    ctx.keep = lambda v: v["kind"] not in ("not-woken", "not-asked-to-stop", "old-parameters")
    ctx.life([r], ("ctor", "init"), setup=setup)
    outs = ctx.life([r], ("ctor", "init", "init"), init_seq(False, True), setup=setup)
    ctx.life([r], ("ctor", "init", "dtor"), init_seq(False), setup=setup)
    if not r.finish(): raise BrokenAnalysis("no successful initialisation found")
    if 2 not in r.sigs:
        r.violations[("no-restart", "init", "")] = {"rule": r.name, "kind": "no-restart", "where": "veigar::Veigar::init", "function": "veigar::Veigar::init", "message": "after a failed initialisation the instance can not be initialised", "root": "ctor+init+init", "callstack": [], "path": []}
    r.ok("initialisation after a failed one like on a new instance", "veigar::Veigar::init")
    ctx.notes.append("failing initialisations: %d states" % r.nfail)


@check("C17", "dataflow analysis of wait times (linear normal forms and intervals)", "deadlines are the time of the call plus the requested time on the clock the wait uses, with nanoseconds in range; interrupted waits go on; the result says whether the signal was taken; negative means no limit")
def c17(ctx):
    W = ctx.W
    this = T("param", "this")
    n = 0
    for cls in ("Semaphore", "MessageQueue"):
        for name in (("wait",) if cls == "Semaphore" else ("processRWLock", "waitForRead")):
            fs = W.method("veigar::" + cls, name)
            if not fs: raise BrokenAnalysis("%s::%s not found" % (cls, name))
            for f in fs:
                st, args, req = State(), [this], None
                unsigned = False
                if len(f.args) > 1:
                    req = T("param", f.args[1][0] or "ms")
                    unsigned = "unsigned" in f.nm.params[0]
                    if f.args[1][1] == "ptr":
                        cell = T("al", -1, ("root", "ms"), "ms")
                        st.mem[cell] = req
                        args.append(cell)
                    else: args.append(req)
                r = timing.SemTiming(req, unsigned)
                E = W.engine([r], queue_prims=False)
                E.split_errno = True
                ctx.roots.append("%s::%s(%s)" % (cls, name, ", ".join(f.nm.params)))
                E.run_root(f, args, st, ctx.roots[-1])
                ctx.done(E, [r])
                n += r.nwaits
    if not n: raise BrokenAnalysis("no wait on a semaphore found")
    for f in W.method("veigar::Event", "wait"):
        if len(f.args) != 2 or f.args[1][1] == "ptr": continue
        req = T("param", f.args[1][0] or "ms")
        r = timing.EventTiming(req)
        E = W.engine([r])
        ctx.roots.append("Event::wait")
        E.run_root(f, [this, req], State(), "Event::wait")
        ctx.done(E, [r])


@check("C26", "effect analysis of the blocking operations of a synchronous call", "every wait on the way has a time limit; the wait for the result lasts the time asked for, once")
def c26(ctx):
    f = dict(ctx.W.api())["root_sync"]
    r = timing.SyncBound(T("param", "t"))
    m = timing.SyncMutexes()
    ctx.root([r, m], "sync", f)
    h = timing.HeldWhileWaiting(m.names)
    ctx.api([h])
    ctx.threads([h])
    ctx.notes.append("mutexes of a synchronous call: %s" % sorted(m.names))
    if not r.waits and not r.violations: ctx.notes.append("the wait for the result was not recognised")


def with_objs(E): E.objs = True


@check("C11", "typestate analysis of the message decoders", "between two messages the decoder is emptied and reset on every path; exactly the received bytes are decoded, from a buffer of the stated size")
def c11(ctx):
    r = messages.Decode()
    ctx.threads([r], setup=with_objs)
    if not r.pops: raise BrokenAnalysis("no message is received into a decoder")


def flow(ctx):
    r = messages.Flow(ctx.P)
    ctx.api([r], setup=with_objs)
    ctx.threads([r], setup=with_objs)
    r.conclude()
    if not r.answering: raise BrokenAnalysis("no thread answers calls")
    ctx.notes.append("layout: %s" % {"%s/%s" % k: {s: sorted(p) for s, p in d.items()} for k, d in sorted(r.roles.items())})
    return r


@check("C09", "dataflow analysis of message fields (provenance of id and channel)", "answers go to the channel and carry the id read from the call; pending calls are looked up by the id read from the answer, after its kind was checked; calls are addressed, named and registered as given")
def c09(ctx):
    ctx.keep = lambda v: v["kind"] in ("wrong-channel", "wrong-id", "wrong-target", "kind-not-checked", "wrong-function", "no-call", "layout-id", "layout-channel", "layout-function", "layout-kind")
    flow(ctx)


C10_KINDS = ("uncaught", "not-answered", "answered-twice", "answered-first", "no-error", "called-twice", "ends-early", "ignored", "layout-error")


@check("C10", "exception and effect analysis of the message handling threads", "no exception leaves a thread procedure, a function that must not throw or the interface; every decoded call is answered exactly once, with an error unless its function has returned; threads end only on request")
def c10(ctx):
    ctx.keep = lambda v: v["kind"] in C10_KINDS
    r = flow(ctx)
    for t, i in sorted(thread_infos(ctx).items()):
        f = ctx.P.funcs[t]
        r.ok("ends of a thread procedure", f.nm.base)
        if i.stop_flags() is None:
            r.violations[("ends-early", f.nm.base, "")] = {"rule": r.name, "kind": "ends-early", "where": f.where(), "function": f.nm.base, "message": "%s can end although it was not asked to" % f.nm.base, "root": f.nm.base, "callstack": [], "path": []}


@check("C21", "dataflow analysis of call results", "a success code is only given after an answer was decoded, with its error text and value; failures carry a failure code and a message")
def c21(ctx):
    ctx.keep = lambda v: v["kind"] in ("false-success", "no-message", "error-dropped", "false-failure", "result-lost", "layout-error", "layout-result", "escapes")
    flow(ctx)
    f = [f for f in ctx.P.funcs.values() if f.nm.base == "vinst::probe_success"]
    r = messages.Success()
    ctx.root([r], "isSuccess", f[0])
    t = messages.Transfer()
    for n in ("assign", "move"):
        f = [f for f in ctx.P.funcs.values() if f.nm.base == "vinst::probe_result_" + n]
        ctx.root([t], "result_" + n, f[0], setup=with_objs)
    f = [f for f in ctx.P.funcs.values() if f.nm.base == "vinst::root_convert"]
    ctx.root([messages.Convert()], "convertObject", f[0], setup=with_objs)


@check("C24", "dataflow analysis of message layouts", "each field is read where it is written, with compatible type and number; bound functions get all converted arguments in order")
def c24(ctx):
    ctx.keep = lambda v: v["kind"].startswith("layout") or v["kind"] == "arguments" or v["rule"] == "functor"
    flow(ctx)
    r = messages.Functor()
    for n, f in ctx.W.functors():
        r.root(f)
        ctx.root([r], f.nm.dem, f, setup=with_objs)
    if r.calls < 4: raise BrokenAnalysis("bound functions are not called by the functors")


@check("C19", "typestate analysis of the function registry", "bind registers exactly once, under the name given, if it is not empty and absent, and says so; unbind removes that name; the list is complete; nothing else changes the registry; functions are not run inside of it")
def c19(ctx):
    r = registry.Registry()
    for n, f in ctx.W.api():
        i = {"unbind": 1}.get(n, 1 if n.startswith("root_bind") else None)
        r.begin(f, i)
        ctx.root([r], n, f)
    r.begin(None, None)
    ctx.threads([r])
    ctx.life([r, registry.Kept()], ("ctor", "init", "uninit", "init") if ctx.thorough else ("ctor", "init", "uninit"))
    if r.inserts < 4: raise BrokenAnalysis("bind does not register functions")
    if not r.removes: raise BrokenAnalysis("unbind does not remove functions")
    if not r.calls: raise BrokenAnalysis("no bound function is called")
    if not r.lists: ctx.notes.append("the construction of the list of names was not recognised")


ASSUMPTIONS = [
    "the library build of Linux (the Windows branch of the sources is not compiled here)",
    "standard library and msgpack behave as their models in vstat/models.py say; their memory exhaustion is out of scope",
    "user code and other processes may do anything at the points where they run"]
EXTRA_ASSUMPTIONS = {}


# ---------------------------------------------------------------------------------------------------- the segment
def seg_run(ctx, extra=()):
    """creation, then each primitive on an arbitrary consistent queue"""
    from loops import Summarizer
    W = ctx.W
    cr = segment.Creation()
    ctx.started.append(cr)
    for how in ("create", "open"):
        E = W.engine([cr], queue_prims=False)
        W.sequence(E, [W.mqstep("MessageQueue"), W.mqstep(how, ipc.truth_pick(True))])
        ctx.roots.append("ctor+" + how)
        ctx.done(E, [cr])
    ctor = W.mqstep("MessageQueue")
    ps_ = ctor[2][1:]
    flds = []
    for p in ps_:
        a = cr.fields.get(p)
        if a is None: raise BrokenAnalysis("parameter %s of the constructor is not kept by the queue" % show(p))
        flds.append(T("ld", a))
    m = {p: f for p, f in zip(ps_, flds)}
    hs = {affine_sub(h, m) for h in cr.header}
    if len(hs) > 1:
        cr.violations[("size", "create", "")] = {"rule": cr.name, "kind": "size-varies", "where": "MessageQueue::create", "function": "veigar::MessageQueue::create", "message": "the recorded size is computed in different ways", "root": "create", "callstack": [], "path": []}
    if not hs:
        if cr.violations: return [cr]
        raise BrokenAnalysis("the size recorded by create was not found")
    S = sorted(hs, key=lambda t: t.id)[0]
    lens = {h: {affine.lin(affine_sub(x, m)) for x in cr.maps.get(h, ())} for h in ("create", "open")}
    for l in lens["open"]:
        d = l - affine.lin(S)
        if d.const is None or d.const < 0:
            cr.violations[("open-length", "open", "")] = {"rule": cr.name, "kind": "mapped-shorter", "where": "MessageQueue::open", "function": "veigar::MessageQueue::open", "message": "an opened queue maps %r bytes of a segment of %r" % (l, affine.lin(S)), "root": "open", "callstack": [], "path": []}
    need = affine.lin(S) - affine.lin(op("mul", flds[0], C(8))) - affine.Lin(24)
    P = affine.lin(op("mul", flds[0], flds[1]))
    cap = need - P
    if cap.const is None or cap.const < 0:
        cr.violations[("size", "create", "small")] = {"rule": cr.name, "kind": "segment-too-small", "where": "MessageQueue::create", "function": "veigar::MessageQueue::create", "message": "the segment has %r bytes, which is less than its header, its size table and the data of all messages of the expected size" % affine.lin(S), "root": "create", "callstack": [], "path": []}
    ctx.notes.append("segment: N = %s, E = %s, S = %r" % (show(flds[0]), show(flds[1]), affine.lin(S)))
    rules = [cr]
    for name in ("pushBack", "popFront", "checkSpaceSufficient", "msgNumber"):
        r = segment.Segment({"N": flds[0], "E": flds[1], "S": S})
        E = W.engine([r] + list(extra), queue_prims=False)
        E.loops = Summarizer(r)
        f = W.mq(name)
        E.params = W.args_of(f)
        E.params[0] = T("param", "this")
        ctx.started.append(r)
        outs = E.run_root(f, E.params, None, name)
        ctx.roots.append(name)
        ctx.done(E, [r] + list(extra))
        rules.append(r)
        r.nlost = len([s for s, k, v in outs if "seg" in s.rs and r.lost(s)])
        ctx.notes.append("%s: %d exits (%d not understood), %d accesses; loops %s%s%s" % (name, len(outs), r.nlost, r.accesses, sorted(E.loops.done.items()), ", not summarised %s" % sorted(E.loops.given_up) if E.loops.given_up else "", ", " + "; ".join(sorted(r.notes)) if r.notes else ""))
    return rules


def affine_sub(t, m):
    if t in m: return m[t]
    if any(type(x) is T for x in t.a): return T(t.k, *[affine_sub(x, m) if type(x) is T else x for x in t.a])
    return t


C07_KINDS = ("out-of-bounds", "wrong-area", "smaller-than-mapped", "mapping-offset", "size-too-large", "size-not-recorded", "header", "size-varies", "mapped-shorter", "segment-too-small",
             "wrong-place", "overlapping-copy", "wrong-length", "buffer-overrun", "space-overestimated", "front-wrong", "partial-move", "data-dropped", "not-emptied")


@check("C07", "abstract interpretation in the affine domain (linear inequalities, loop summaries) of the segment", "with the layout of the segment as invariant (0 <= n <= N, 0 <= F, F + sum of sizes <= capacity): every access of every operation lies in the segment and in its area, messages do not overlap, and the invariant holds afterwards; what creation maps, records and clears establishes it")
def c07(ctx):
    ctx.keep = lambda v: v["kind"] in C07_KINDS
    seg_run(ctx)


C08_NOT = ("out-of-bounds", "smaller-than-mapped", "mapping-offset", "size-too-large", "mapped-shorter", "segment-too-small", "space-overestimated")


@check("C08", "abstract interpretation in the affine domain: abstract sequence of messages before and after each operation", "for every queue state: a push appends exactly the message and keeps the others, a removal returns the first one with its size and bytes and keeps the others, a refused operation changes nothing and says why")
def c08(ctx):
    ctx.keep = lambda v: v["kind"] not in C08_NOT
    seg_run(ctx)


# ---------------------------------------------------------------------------------------------------- buffers
@check("C12", "interprocedural typestate analysis of buffer ownership", "linear ownership of every malloc'ed buffer: on every path it is released exactly once or handed on through a container, whoever takes it out owns it; it is not used after release or hand-over")
def c12(ctx):
    sp = tokens.BufSpec(ctx.P)
    r = tokens.BufTokens(sp)
    ctx.api([r])
    r2 = tokens.BufTokens(sp)
    ctx.threads([r2])
    r3 = tokens.BufTokens(sp)
    r3.carriers = {n for n, _ in r.places | r2.places if not n.startswith("%")}
    ctx.life([r3])
    r4 = tokens.BufTokens(sp)
    r4.helper = True
    n = 0
    api = {id(x) for _, x in ctx.W.api()}
    own = [f for f in ctx.P.funcs.values() if not f.decl and ctx.P.own(f) and id(f) not in api]
    calls = {f.name: {i["f"][1] for b in f.blocks for i in b if i["o"] in ("call", "invoke") and i["f"][0] == "fn"} for f in own}
    work = [f for f in own if calls[f.name] & {"malloc", "calloc", "realloc", "free"}]
    seen = set()
    while work:
        f = work.pop(0)
        if f.name in seen: continue
        seen.add(f.name)
        n += 1
        r4.handed = False
        ctx.root([r4], f.nm.base, f)
        # whoever gets a buffer from it is responsible for it
        if r4.handed: work += [g for g in own if f.name in calls[g.name]]
    ctx.notes.append("functions that allocate or release, analysed on their own too: %d" % n)
    ctx.notes.append("containers that carry buffers: %s" % sorted(set(r.conts) | set(r2.conts) | set(r3.conts)))


# ---------------------------------------------------------------------------------------------------- widths of sizes and times
@check("C22", "interval analysis of integer arithmetic and conversions", "for all values that the types of the interface admit and the code has not excluded on the path: no sum, product or shift of sizes and times exceeds the width it is computed with, no conversion cuts it off or changes its sign")
def c22(ctx):
    W = ctx.W
    n = 0
    def setup(E): E.heap_shared = True
    for run in range(4):
        r = widths.Widths()
        if run == 0:
            for nm, f in W.api():
                r.params(f, W.args_of(f))
                ctx.root([r], nm, f, queue_prims=False)
        elif run == 1: ctx.threads([r])
        elif run == 2:
            f = W.lifecycle_functions()["init"]
            r.params(f, W.args_of(f))
            ctx.life([r], ("ctor", "init"), queue_prims=False)
        else:
            ctx.keep = lambda v: v["rule"] == "widths"
            seg_run(ctx, [r])
            for cls, ms in (("MessageQueue", ("create", "open", "processRWLock", "waitForRead")), ("Semaphore", ("open", "wait")), ("SharedMemory", ("create", "open", "close")), ("Event", ("wait",))):
                for name in ms:
                    for f in W.method("veigar::" + cls, name):
                        args = W.args_of(f)
                        r.params(f, args)
                        ctx.root([r], cls + "::" + name, f, queue_prims=False)
        n += sum(r.n.values())
        ctx.notes.append("%s: %s" % (("interface", "workers", "initialisation", "queue")[run], r.n))
    if n < 50: raise BrokenAnalysis("almost no arithmetic found")


# ---------------------------------------------------------------------------------------------------- call ids
@check("C15", "dataflow analysis of string composition and of the origin of its parts", "a call id is made of the id of the instance and of a number that an atomic step advances, unabridged and separated from the text around it; the id of an instance carries at least 64 bits of a non-deterministic source, drawn at initialisation")
def c15(ctx):
    W = ctx.W
    import models
    def setup(E): E.keep_fmt = True
    fs = W.method("veigar::Veigar", "getNextCallId")
    if not fs: raise BrokenAnalysis("Veigar::getNextCallId not found")
    fields, counters = set(), set()
    for f in fs:
        strs = [a for a, p in zip(f.args[-len(f.nm.params):] if f.nm.params else [], f.nm.params or []) if "string" in p]
        user = T("ld", ps(T("param", strs[0][0]), "s")) if strs else None
        r = ids.CallId(user)
        r.dest = f.args[0][0]
        if f.args[0][2] != "sret": raise BrokenAnalysis("getNextCallId does not return a string")
        E = W.engine([r])
        setup(E)
        ctx.started.append(r)
        ctx.roots.append("getNextCallId")
        W.run(E, f, "getNextCallId")
        ctx.done(E, [r])
        fields |= {E.fullname(x) for x in r.fields}
        counters |= {E.fullname(x) for x in r.counters}
        ctx.notes.append("parts: %s; instance id %s; counter %s" % (sorted(r.kinds), sorted(fields), sorted(counters)))
    i = ids.InstanceId(fields, counters)
    i.names = fields
    ctx.life([i], ("ctor", "init", "uninit", "init"), init_pick(True), setup=setup)
    if fields and not i.found and not i.violations:
        ctx.notes.append("the instance id %s is not set by initialisation" % sorted(fields))
        i.violations[("unset", "", "")] = {"rule": i.name, "kind": "instance-id-unset", "where": "init", "function": "veigar::Veigar::init", "message": "the instance id %s is not set when initialisation succeeds" % sorted(fields), "root": "ctor+init", "callstack": [], "path": []}


# ---------------------------------------------------------------------------------------------------- formatted output
@check("C20", "call-site query over the compiler's intermediate representation, dataflow of formats", "at every call of a formatting function the format is a constant and its conversions agree with the number and types of the arguments; a list of variable arguments is read once; text buffers have the announced size")
def c20(ctx):
    W = ctx.W
    sites = formats.Sites(W.P)
    if not sites.own: raise BrokenAnalysis("no formatting function found")
    r = formats.Formats(sites)
    ctx.started.append(r)
    direct, indirect = 0, []
    for f, i, g, k in sites.all():
        o = i["a"][k]
        s = W.P.globstr(o[1]) if o[0] == "g" else None
        where = f.where(i)
        if s is not None:
            direct += 1
            r.ok("format and arguments", where)
            m = formats.mismatch(s, (i.get("aty") or [])[k + 1:])
            if m: r.violations[(where, "mismatch", str(i["i"]))] = {"rule": r.name, "kind": "mismatch", "where": where, "function": f.nm.base, "message": m, "root": f.nm.base, "callstack": [], "path": []}
        elif o[0] != "g": indirect.append((f, i, g, k))
    if indirect:
        ctx.api([r])
        ctx.threads([r])
        ctx.functors([r])
        ctx.life([r], ("ctor", "init", "uninit"), queue_prims=False)
    # the formatting functions themselves
    l = formats.Lists()
    names = sorted({f.nm.base for f in W.P.funcs.values() if f.name in sites.own or (not f.decl and W.P.own(f) and any("va_list" in p for p in f.nm.params or []))})
    for f in sorted((f for f in W.P.funcs.values() if f.nm.base in names and not f.decl), key=lambda f: f.name):
        E = W.engine([l, r])
        E.primitives = {}
        nm = f.nm.base + "(" + ", ".join(f.nm.params or []) + ")"
        ctx.roots.append(nm)
        ctx.started.append(l)
        W.run(E, f, nm)
        ctx.done(E, [l, r])
    unseen = [f.where(i) for f, i, g, k in indirect if (f.name, i["i"]) not in r.visited]
    ctx.notes.append("%d call sites with a constant format, %d others (not reached: %s), %d reads of argument lists" % (direct, len(indirect), unseen, l.n))


# ---------------------------------------------------------------------------------------------------- restarted targets
@check("C27", "typestate analysis of cached queues, opening and creating", "a cached queue is used only after its segment was examined (linked, same size) and opened anew otherwise; a segment is mapped only when large enough and accepted only with the expected recorded size; creating a queue leaves its lock free exactly once, whatever a crashed process left")
def c27(ctx):
    W = ctx.W
    r = restart.Cache()
    for n, f, _ in W.thread_roots(): ctx.root([r], n, f)
    ctx.notes.append("containers of cached queues: %s" % {show(k): sorted(v) for k, v in r.suffix.items()})
    o = restart.Open()
    ctx.started.append(o)
    E = W.engine([o], queue_prims=False)
    if not W.sequence(E, [W.mqstep("MessageQueue"), W.mqstep("open", ipc.truth_pick(True))]): raise BrokenAnalysis("MessageQueue::open never succeeds")
    ctx.roots.append("ctor+open")
    ctx.done(E, [o])
    if not o.n: raise BrokenAnalysis("MessageQueue::open maps nothing")
    names = ipc.queue_roles(ctx).names
    c = restart.Create(names.get("create", {}).get("lock", set()))
    ctx.started.append(c)
    E = W.engine([c], queue_prims=False)
    W.sequence(E, [W.mqstep("MessageQueue"), W.mqstep("create", ipc.truth_pick(True))])
    ctx.roots.append("ctor+create")
    ctx.done(E, [c])
    if not c.n: raise BrokenAnalysis("MessageQueue::create opens no lock")


# ---------------------------------------------------------------------------------------------------- moving instances
@check("C23", "shape analysis of two instances over construction, initialisation, moving and destruction", "after a move the target owns every object that the source owned, nothing reachable from it refers to the source, the source owns none of them, what the target owned is released, and every object is deleted exactly once")
def c23(ctx):
    W = ctx.W
    src, dst = T("param", "src"), T("param", "dst")
    L = W.lifecycle_functions()
    assign = [f for f in W.method("veigar::Veigar", "operator=", 1) if not f.decl]
    ctor = [f for f in W.P.find("veigar::Veigar::Veigar") if not f.decl and len(f.nm.params) == 1 and f.nm.params[0].endswith("&&") and "C1E" in f.name] or [f for f in W.P.find("veigar::Veigar::Veigar") if not f.decl and len(f.nm.params) == 1 and f.nm.params[0].endswith("&&")]
    if not assign and not ctor:
        ctx.notes.append("instances can not be moved")
    def iargs(o): return [o] + [T("param", a[0] or "a%d" % n) for n, a in enumerate(L["init"].args[1:])]
    good = lambda st, v: v is None or st.truth(v) is not False
    S = {"src.ctor": ("src.ctor", L["ctor"], [src], None), "dst.ctor": ("dst.ctor", L["ctor"], [dst], None), "src.init": ("src.init", L["init"], iargs(src), good), "src.uninit": ("src.uninit", L["uninit"], [src], None),
         "src.dtor": ("src.dtor", L["dtor"], [src], None), "end": ("end", L["dtor"], [dst], None)}
    plans = []
    for kind, f in (("assign", assign), ("ctor", ctor)):
        if not f: continue
        mv = ("move", f[0], [dst, src], None)
        d = ["dst.ctor"] if kind == "assign" else []
        plans.append((["src.ctor"] + d, mv, ["src.dtor", "end"], False, dst))
        plans.append((["src.ctor", "src.init"] + d, mv, [], True, dst))
        plans.append((["src.ctor", "src.init", "src.uninit"] + d, mv, ["src.dtor", "end"], False, dst))
        if kind == "assign": plans.append((["src.ctor"], ("move", f[0], [src, src], None), ["src.dtor"], False, src))
    for pre, mv, post, running, d in plans:
        r = moves.Moved(src, d)
        r.running = running
        E = W.engine([r])
        E.heap_shared = True
        ctx.started.append(r)
        name = "%s %s" % ("+".join(pre), "self-assignment" if d is src else mv[1].nm.meth)
        ctx.roots.append(name)
        outs = W.sequence(E, [S[x] for x in pre])
        if not outs: raise BrokenAnalysis("no state to move an instance in (%s)" % name)
        for st in outs: r.snap(st)
        outs = W.sequence(E, [mv], outs)
        outs = [s for s in outs if d is src or s.truth(cmp_("eq", src, dst)) is not True]
        if post and outs: W.sequence(E, [S[x] for x in post], outs)
        ctx.done(E, [r])
        if not r.moves: raise BrokenAnalysis("moving an instance never returns (%s)" % name)


# ---------------------------------------------------------------------------------------------------- messages on their way to a queue
def config_ms(name):
    try: m = re.search(r"^\s*#\s*define\s+%s\s+\(?(\d+)" % name, open(os.path.join(REPO, "include/veigar/config.h")).read(), re.M)
    except OSError: m = None
    return int(m.group(1)) if m else None


@check("C30", "typestate and dataflow analysis of the wait for queue space", "a message that does not fit at the moment is retried until the limit of the message has passed, counted from its issue, and not longer; the limit is the one that was asked for")
def c30(ctx):
    w = carry.SpaceWait()
    ctx.threads([w])
    ctx.notes.append("limits of messages: %s" % {t: [sorted(o) for o in d] for t, d in sorted(w.limits.items())})
    ctx.keep = lambda v: v["rule"] == "space-wait" or v["kind"].startswith("limit")
    r = carry.Carry(w.limits, config_ms("VEIGAR_WRITE_RESPONSE_QUEUE_TIMEOUT"))
    ctx.api([r], setup=with_objs)
    ctx.threads([r], setup=with_objs)


@check("C31", "dataflow analysis of message buffers", "a queued message owns a buffer with exactly the bytes of the whole message, and the size recorded with it is the number of these bytes")
def c31(ctx):
    ctx.keep = lambda v: not v["kind"].startswith("limit")
    w = carry.Released()
    ctx.threads([w])
    ctx.notes.append("buffers of messages: %s" % {t: sorted(o) for t, o in sorted(w.offs.items())})
    r = carry.Carry({}, buffers=w.offs)
    ctx.api([r], setup=with_objs)
    ctx.threads([r], setup=with_objs)
    if not r.n: ctx.notes.append("no message with a buffer is queued")


@check("C32", "ownership analysis of message objects and their zones", "an object that is kept is kept together with the zone that it was made in, or cloned")
def c32(ctx):
    r = objects.Owners()
    ctx.threads([r], setup=with_objs)
    ctx.api([r], setup=with_objs)
    for n, f in ctx.W.functors(): ctx.root([r], f.nm.dem, f, setup=with_objs)
    for f in ctx.P.funcs.values():
        if not f.decl and ctx.P.own(f) and (any("object_handle" in p for p in f.nm.params) or f.nm.base.startswith("vinst::probe_handle")): ctx.root([r], f.nm.dem, f, setup=with_objs)
    if not r.handles: ctx.notes.append("no object is kept")
