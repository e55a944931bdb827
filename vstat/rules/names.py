"""Names of queues and channels: which queue is created, opened and used under which name."""
from terms import *
from engine import Rule
from ir import BrokenAnalysis
from rules.ipc import flat
from rules.wake import qname


def fmtflat(E, t):
    """parts of a name; a formatted text with plain %s conversions is a concatenation"""
    out = []
    for x in flat(t):
        if not isinstance(x, str) and x.k == "fmt" and len(x.a) > 1 and x.a[0].k == "lit":
            parts = x.a[0].a[0].split("%s")
            if len(parts) == len(x.a) and not any("%" in p for p in parts) and all(a.k == "cstr" for a in x.a[1:]):
                for i, p in enumerate(parts):
                    if i: out += fmtflat(E, x.a[i].a[0])
                    if p: out.append(p)
                continue
        out.append(x)
    res = []
    for x in out:
        if res and isinstance(res[-1], str) and isinstance(x, str): res[-1] += x
        elif x != "": res.append(x)
    return res


def unclear(t):
    """a name whose making the analysis does not follow"""
    return t.k in ("sym", "fmt", "strof", "uninit", "undef", "xv") or any(unclear(x) for x in t.a if type(x) is T and t.k not in ("ld", "ps", "at", "tup"))


class Created(Rule):
    """queues created by initialisation: suffix, and the fields that refer to them afterwards"""
    name = "channel-names"

    def __init__(self):
        super().__init__()
        self.created = set()
        self.fields = {}       # field -> set of suffixes
        self.own = None        # fields that hold the own channel name

    def handlers(self):
        return {"q_create": self.create, "exit": self.exit}

    def create(self, ev):
        if not ev.ok: return
        f = fmtflat(self.E, ev.path)
        self.ok("queue created", ev.where())
        suf = f[-1] if isinstance(f[-1], str) else ""
        rest = f[:-1] if suf else f
        ch = content_of(self.E, ev.st, T("param", "channelName"))
        if not (len(rest) == 1 and rest[0] is ch):
            if any(not isinstance(x, str) and unclear(x) for x in rest): suf = None
            else: self.report(ev, "name-not-verbatim", "the name of the queue is not made of the complete channel name and a fixed suffix (%s)" % show(ev.path))
        st = ev.st
        for m, s in st.rs.get("made", ()):
            if s == suf and suf is not None and m is not ev.mq: self.report(ev, "same-name", "two queues of an instance are created under the same name (suffix '%s')" % suf)
        st.rs["made"] = st.rs.get("made", frozenset()) | {(ev.mq, suf)}

    def exit(self, ev):
        st = ev.st
        if self.step != "init" or ev.how != "ret" or ev.val is None or st.truth(ev.val) is not True: return
        made = dict(st.rs.get("made", ()))
        ch = T("ld", ps(T("param", "channelName"), "s"))
        own = set()
        for k, v in st.mem.items():
            if v in made: self.fields.setdefault(self.E.fullname(k), set()).add(made[v])
            if k.k == "ps" and k.a[1] == "s" and v is ch: own.add(self.E.fullname(k))
        self.own = own if self.own is None else self.own & own
        self.created |= set(made.values())


def content_of(E, st, addr):
    import models
    return models.content(E, st, addr)


class Producers(Rule):
    """which containers messages are put into, and where their channel is kept in the element"""
    name = "channel-names"

    def __init__(self):
        super().__init__()
        self.ins = {}       # container -> (roots, offsets of the fields that hold the target's channel)

    def handlers(self):
        return {"insert": self.insert}

    def insert(self, ev):
        E, st = self.E, ev.st
        if not E.shared(st, ev.cont) or ev.key is not None: return
        n = E.fullname(ev.cont)
        offs = set()
        for k in E.under(st, ev.elem):
            if k.k == "ps" and k.a[1] == "s" and base_of(k) is ev.elem and "ch" in params_of(content_of(E, st, k.a[0])): offs.add(off(k.a[0]))
        for o in range(0, 256, 8):
            a = at(ev.elem, o)
            s = E.copied_from(st, a, ev.elem)
            if s is not None and params_of(content_of(E, st, a)) == {"ch"}: offs.add(o)
        roots, o0 = self.ins.get(n, (set(), None))
        self.ins[n] = (roots | {E.root}, offs if o0 is None else o0 & offs)


def params_of(t):
    out = set()

    def w(x):
        if x.k == "param": out.add(x.a[0])
        for y in x.a:
            if type(y) is T: w(y)
    w(t)
    return out


def off(a):
    while a.k in ("ps", "tup", "ix"): a = a.a[0]
    return a.a[1] if a.k == "at" else 0


class Users(Rule):
    """queues that the workers open, cache and use"""
    name = "channel-names"

    def __init__(self, cr, kinds, chan_off, maps):
        super().__init__()
        self.cr, self.kinds, self.chan_off = cr, kinds, chan_off     # container -> role of the queue its messages belong to (suffix)
        self.maps = maps     # map -> suffixes

    def handlers(self):
        return {"elem": self.elem, "q_open": self.open, "insert": self.insert, "notfound": self.notfound, "q_push": self.push, "cvwait": self.reset, "unlock": self.unlock}

    def elem(self, ev):
        st = ev.st
        n = self.E.fullname(ev.cont)
        if ev.how == "front" and n in self.kinds:
            self.reset(ev)
            st.rs["work"] = (n, ev.elem)
            st.rs["wchan"] = frozenset(self.channel(st, ev.elem))       # the message may be moved out of the queue
        if ev.how == "find" and mq_map(ev):
            self.key(ev, ev.key, n)
            st.rs["qk"] = frozenset(x for x in st.rs.get("qk", frozenset()) if x[0] is not ev.elem) | {(ev.elem, n, ev.key)}

    def notfound(self, ev):
        if mq_map(ev): self.key(ev, ev.key, self.E.fullname(ev.cont))

    def unlock(self, ev):
        """a lookup is only good for the queue that is used now"""
        st = ev.st
        q = st.rs.get("qk")
        if q:
            live = st.reach(rules=False)
            st.rs["qk"] = frozenset(x for x in q if x[0] in live)

    def work(self, ev):
        w = ev.st.rs.get("work")
        return w if w and w[0] in self.kinds else None

    def channel(self, st, elem):
        """content of the channel field of a queued message"""
        import models
        now = [models.content(self.E, st, at(elem, o)) for o in self.chan_off]
        w = st.rs.get("work")
        if w and w[1] is elem: now += [x for x in st.rs.get("wchan", ()) if x not in now]
        return now

    def key(self, ev, key, what):
        w = self.work(ev)
        if not w or key is None or not self.chan_off: return
        self.ok("queue looked up by channel", ev.where())
        if isinstance(key, T) and key not in self.channel(ev.st, w[1]) and key.k == "ld" and base_of(key.a[0]).k != "al":
            self.report(ev, "wrong-key", "the queues of targets are looked up with a key other than the channel of the message (%s)" % show(key))

    def open(self, ev):
        st = ev.st
        w = self.work(ev)
        f = fmtflat(self.E, ev.path)
        self.ok("queue opened", ev.where())
        if any(not isinstance(x, str) and unclear(x) for x in f): return
        suf = f[-1] if isinstance(f[-1], str) else ""
        rest = f[:-1] if suf else f
        if not w: return
        want = self.kinds[w[0]]
        if suf not in self.cr.created and None not in self.cr.created:
            self.report(ev, "open-without-create", "the queue opened here has suffix '%s', queues are created with %s" % (suf, sorted(x or "?" for x in self.cr.created)))
        elif want and suf not in want and None not in want:
            self.report(ev, "wrong-queue", "messages of %s are sent to the queue with suffix '%s', the receiver reads them from %s" % (w[0], suf, sorted(want)))
        if not (len(rest) == 1 and not isinstance(rest[0], str)):
            self.report(ev, "name-not-verbatim", "the name of the opened queue is not made of the complete channel name and a fixed suffix (%s)" % show(ev.path))
        elif self.chan_off and rest[0] not in self.channel(st, w[1]):
            self.report(ev, "wrong-channel", "the queue is opened under a name that is not the channel the message is for (%s)" % show(rest[0]))
        if ev.ok:
            st.rs["opened"] = frozenset(x for x in st.rs.get("opened", frozenset()) if x[0] is not ev.mq) | {(ev.mq, suf, rest[0] if len(rest) == 1 else NULL)}

    def insert(self, ev):
        if not mq_map(ev): return
        n = self.E.fullname(ev.cont)
        import models
        self.ok("opened queue cached", ev.where())
        ev.st.rs["qk"] = frozenset(x for x in ev.st.rs.get("qk", frozenset()) if x[0] is not ev.elem) | {(ev.elem, n, ev.key)}
        for m, suf, pre in ev.st.rs.get("opened", ()):
            # the queue opened last belongs to this entry
            if ev.key is not None and isinstance(pre, T) and ev.key is not pre:
                self.report(ev, "wrong-key", "the opened queue is cached under a name other than the channel it belongs to")
            self.maps.setdefault(n, set()).add(suf)
            if len(self.maps[n]) > 1: self.report(ev, "mixed-cache", "queues with different roles are cached in one map (%s): %s" % (n, sorted(self.maps[n])))

    def push(self, ev):
        st = ev.st
        w = self.work(ev)
        if not w: return
        E = self.E
        want = self.kinds[w[0]]
        b = base_of(ev.data.a[0]) if ev.data.k == "ld" else None
        self.ok("message put into the queue of its channel", ev.where())
        mine = w[1] if b is None or b.k != "sym" or b.a[2] != "elem" else b
        chans = self.channel(st, mine)
        mq = ev.mq
        for m, suf, pre in st.rs.get("opened", ()):
            if m is mq:
                if self.chan_off and pre not in chans: self.report(ev, "wrong-channel", "the message is put into the queue of another channel than its own")
                return
        if mq.k != "ld": return
        mb = base_of(mq.a[0])
        for e, n, key in st.rs.get("qk", ()):
            if e is mb:
                if self.chan_off and key not in chans and key.k == "ld" and base_of(key.a[0]).k != "al":
                    self.report(ev, "wrong-channel", "the message is put into the queue cached for another channel than its own")
                return
        f = E.fullname(mq.a[0])
        sufs = self.cr.fields.get(f)
        if not sufs: return
        if want and not (sufs & want) and None not in want and None not in sufs:
            self.report(ev, "wrong-queue", "messages of %s are put into the own queue with suffix %s (%s), they are read from %s" % (w[0], sorted(sufs), f, sorted(want)))
        if not self.chan_off: return
        same = False
        for k, v in st.facts.items():
            if v is True and k.k == "streq":
                x, y = k.a
                for p, q in ((x, y), (y, x)):
                    if p in chans and q.k == "ld" and (E.fullname(q.a[0]) in (self.cr.own or ())): same = True
                    elif p in chans and (unclear(q)): same = True
        if not same:
            self.report(ev, "wrong-channel", "a message is put into a queue of this instance although its channel has not been found equal to the own channel name")

    def reset(self, ev):
        for k in ("work", "wchan", "opened", "qk"): ev.st.rs.pop(k, None)


def mq_map(ev):
    return any("MessageQueue" in t for t in (ev.targs or ()))


class Readers(Rule):
    """what a thread reads and what it does with it"""
    name = "channel-names"

    def __init__(self):
        super().__init__()
        self.queues, self.inserts, self.completes, self.front = {}, {}, set(), {}

    def handlers(self):
        return {"q_pop": self.pop, "insert": self.insert, "promise_set": self.done, "elem": self.elem}

    def pop(self, ev): self.queues.setdefault(self.E.root, set()).add(qname(self.E, ev.mq))

    def insert(self, ev):
        if self.E.shared(ev.st, ev.cont) and ev.key is None: self.inserts.setdefault(self.E.root, set()).add(self.E.fullname(ev.cont))

    def elem(self, ev):
        if ev.how == "front": self.front.setdefault(self.E.root, set()).add(self.E.fullname(ev.cont))

    def done(self, ev): self.completes.add(self.E.root)


def distinct(r, sufs, roles):
    """names of different queues of any channels never coincide: no suffix ends another one of the same name space"""
    full = {}
    for q in sorted(x for x in sufs if x is not None):
        for space, rs in (("semaphore", ("lock", "signal")), ("segment", ("segment",))):
            for role in rs:
                for n in roles.names.get("create", {}).get(role, ()):
                    f = fmtflat(None, n)
                    if f and isinstance(f[0], str) and len(f) > 1: f = f[1:]
                    if len(f) == 2 and isinstance(f[1], str) and not isinstance(f[0], str): full[(space, q, role)] = q + f[1]
                    elif len(f) == 1 and not isinstance(f[0], str) and f[0].k == "ld": full[(space, q, role)] = q
    ks = sorted(full)
    for i, a in enumerate(ks):
        for b in ks[i + 1:]:
            if a[0] != b[0]: continue
            r.ok("pair of names distinct for all channels", "%s%s / %s%s" % (full[a], "", full[b], ""))
            if full[a] == full[b]: r.bad("names-clash", "the %s of the %s queue and the %s of the %s queue have the same name" % (a[2], a[1], b[2], b[1]))
            elif full[a].endswith(full[b]) or full[b].endswith(full[a]):
                r.bad("names-clash", "the names '<channel>%s' and '<channel>%s' coincide for some channels" % (full[a], full[b]))
