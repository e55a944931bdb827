"""Messages on their way: taken from a queue and decoded, answered, completed."""
from terms import *
from engine import Rule
from affine import lin, atoms, Lin
from models import content
from rules.wake import Flags


def object_of(t):
    """the object a value was read from"""
    while t.k in ("ld", "at", "ix", "tup", "ps"): t = t.a[0]
    return t


class Decode(Rule):
    """each message is decoded on its own, from exactly the bytes that were received"""
    name = "decode"

    def __init__(self):
        super().__init__()
        self.pops = 0
        self.parsed = 0

    def handlers(self):
        return {"q_pop": self.pop, "q_wait": self.wait, "msgpack": self.mp, "mp_next": self.next, "q_lock": self.wait, "uncaught": self.ends, "terminate": self.ends}

    def ends(self, ev):
        """what a message contains must not end the thread that received it"""
        if "Drecv" not in ev.st.rs: return
        k = ev.exc[0] if ev.exc else "?"
        self.report(ev, "receiver-ends", "an exception (%s) ends the thread that receives messages: the messages after this one are not received" % k, where=self.E.root if ev.kind == "uncaught" else None)

    def known(self, st): return st.rs.get("Dp", NULL)

    def between(self, ev):
        """nothing of the previous message may be left when the next one is received"""
        st = ev.st
        p = self.known(st)
        if p.k == "popped": self.report(ev, "lost", "a message that was taken from the queue is not handed to the decoder before the next one is waited for")
        elif p.k == "consumed": self.report(ev, "lost", "a message that was taken from the queue is not decoded before the next one is waited for")
        if "Dleft" in st.rs: self.report(ev, "left-over", "bytes of the previous message that were not decoded are still in the buffer when the next message is received")
        if "Dctx" in st.rs: self.report(ev, "left-over", "the decoder still is in the middle of the previous message when the next one is received")
        for k in ("Dp", "Dleft", "Dctx", "Dshort", "Dsmall"): st.rs.pop(k, None)

    def wait(self, ev): self.between(ev)

    def pop(self, ev):
        st = ev.st
        sm = st.rs.get("Dsmall")
        if sm is not None: self.report(ev, "too-small", "the buffer was enlarged to %s although the message has %s bytes" % (show(sm.a[0]), show(sm.a[1])))
        self.between(ev)
        b = ev.buf
        if b.k != "mpbuf": return
        self.pops += 1
        st.rs["Drecv"] = TRUE
        pac = b.a[0]
        v = st.mem.get(ps(pac, "mpv"))
        self.ok("message is received into the decoder's buffer", ev.where())
        if (b.a[1] if len(b.a) > 1 else None) is not v:
            self.report(ev, "stale-buffer", "the message is written to where the decoder's buffer was before it was enlarged or filled")
        cap = st.mem.get(ps(pac, "buffer_capacity"))
        good = False
        if cap is not None and st.mem.get(ps(pac, "capv"), NULL) is (v if v is not None else NULL):
            d = lin(ev.cap) - lin(cap)
            good = not d.m and d.c <= 0
        r = st.rs.get("Dres")
        if not good and r is not None and r.a[0] is v:
            d = lin(ev.cap) - lin(r.a[1])
            good = not d.m and d.c <= 0
        if not good: self.report(ev, "capacity", "the size given with the decoder's buffer (%s) is not its free capacity" % show(ev.cap))
        if ev.ok: st.rs["Dp"] = T("popped", pac, ev.written)
        else: st.rs["Dshort"] = ev.written

    def mp(self, ev):
        st = ev.st
        m, this = ev.meth, ev.a.this
        p = self.known(st)
        if m == "unpacker" or (m == "operator=" and p.k == "parsed" and "Dleft" in st.rs and "unpacker" in ev.base):
            for k in ("Dleft", "Dctx"): st.rs.pop(k, None)
        elif m == "reserve_buffer":
            n = ev.a.a[0]
            w = st.rs.pop("Dshort", None)
            st.rs["Dres"] = T("res", C(ev.ins["i"]), n)
            if w is not None and not isc(w):
                d = lin(n) - lin(w)
                self.ok("buffer enlarged for a long message", ev.where())
                if isc(n) or (not d.m and d.c < 0): st.rs["Dsmall"] = T("small", n, w)
        elif m == "buffer_consumed":
            if p.k == "popped" and p.a[0] is this:
                n = ev.a.a[0]
                d = lin(n) - lin(p.a[1])
                self.ok("received bytes handed to the decoder", ev.where())
                if isc(n) or (not d.m and d.c) or n is st.mem.get(ps(this, "buffer_capacity")):
                    self.report(ev, "wrong-length", "%s bytes are decoded although the message has %s" % (show(n), show(p.a[1])))
                st.rs["Dp"] = T("consumed", this)
                st.rs["Dleft"] = TRUE
            elif p.k != "popped": self.report(ev, "wrong-length", "the decoder is given bytes that were not received")
        elif m == "skip_nonparsed_buffer":
            n = ev.a.a[0]
            if isc(n) and n.a[0] == 0: return
            st.rs.pop("Dleft", None)
        elif m == "remove_nonparsed_buffer": st.rs.pop("Dleft", None)
        elif m == "reset": st.rs.pop("Dctx", None)

    def next(self, ev):
        st = ev.st
        p = self.known(st)
        if p.k == "popped":
            self.report(ev, "not-consumed", "the decoder is started before it was told the length of the message")
        self.ok("message decoded", ev.where())
        self.parsed += 1
        st.rs["Dp"] = T("parsed")
        if ev.result is True: st.rs.pop("Dctx", None)
        else: st.rs["Dctx"] = TRUE


INTS = ("int", "signed char", "unsigned char", "char", "short", "unsigned short", "unsigned int", "long", "unsigned long", "long long", "unsigned long long")


def kind_of(t):
    t = t.strip()
    if t in INTS: return "integer"
    if "basic_string" in t and not t.startswith("std::tuple"): return "string"
    if t.startswith("std::tuple<"): return "array"
    if "msgpack" in t and "object" in t: return "any"
    return t


def addr_in(t, b):
    """does the term read memory of object b"""
    if t is b: return True
    return any(addr_in(x, b) for x in t.a if isinstance(x, T))


class Flow(Flags):
    """what is written into messages, what is read from them and where answers and results go"""
    name = "flow"

    def __init__(self, P):
        super().__init__()
        self.P = P
        self.structs = {}
        self.roles = {}          # (message, role) -> {"writer": set of positions, "reader": set}
        self.types = {}          # (message, side) -> set of tuples of kinds
        self.flags = {}          # message -> constants written
        self.answering = set()   # roots that answer calls
        self.receiving = set()   # roots that complete calls with decoded answers
        self.rtypes = {}         # root -> kinds of the fields it reads
        self.idoff, self.sizeoff, self.ptroff = set(), set(), set()
        self.late = []           # reports that depend on what a root turns out to be
        self.idparam = None

    def handlers(self):
        h = super().handlers()
        h.update({"insert": self.insert, "mp_next": self.next, "mp_convert": self.convert, "usercall": self.ucall, "caught": self.caught, "elem": self.elem,
                  "promise_set": self.pset, "exit": self.exit, "mp_pack": self.pack, "mp_as": self.mas, "mp_isnil": self.isnil, "notfound": self.elem, "uncaught": self.uncaught, "terminate": self.uncaught,
                  "q_push": self.push, "q_wait": self.qwait, "erasekey": self.ekey, "malloc_fail": self.malloc})
        return h

    # ---------------------------------------------------------------- helpers
    def is_thread(self): return "::" in self.E.root and self.E.root.startswith("veigar::")

    def role(self, msg, role, side, pos, where):
        self.roles.setdefault((msg, role), {}).setdefault(side, {}).setdefault(pos, where)

    def fields(self, tname):
        """(strings, pointers): offsets of the fields of a repository struct"""
        r = self.structs.get(tname)
        if r is None:
            from rules.tokens import nested_fields
            ss, pp = [], []
            for o, t, n in nested_fields(self.P, tname, lambda t, n: True):
                if t in ("std::string", "string") or "basic_string" in t: ss.append(o)
                elif t.replace(" ", "") in ("ptr", "uint8_t*", "unsignedchar*", "char*", "void*"): pp.append(o)
            r = self.structs[tname] = (tuple(ss), tuple(pp))
        return r

    def msg(self, st): return st.rs.get("Fm")

    def fget(self, st, i):
        m = self.msg(st)
        return m.a[i] if m is not None and i < len(m.a) else None

    # ---------------------------------------------------------------- messages received
    def finish(self, ev):
        """the message that was decoded last has been dealt with"""
        st = ev.st
        if "Fcur" in st.rs:
            n = st.rs.get("Fn", C(0)).a[0]
            if "Fm" in st.rs:
                self.ok("decoded message dealt with", self.E.root)
                if any(f.k == "ld" and f.a[0].k == "ps" and st.truth(isempty_(f)) is True for f in self.msg(st).a): st.rs["Fgone"] = TRUE
                # a part of the instance does not exist (any more)
                if n == 0 and any(v is True and k.k == "cmp" and k.a[0] == "eq" and any(x is C(0) for x in k.a[1:]) and any(x.k == "ld" and x.a[0].k == "at" and base_of(x.a[0]).k in ("ld", "param") and self.pointer_cell(x.a[0]) for x in k.a[1:]) for k, v in st.facts.items()): st.rs["Fgone"] = TRUE
                if n == 0 and "Fgone" not in st.rs and not st.rs.get("tf") and "Ftried" not in st.rs:
                    self.late.append(("answers", self.keyrep(ev, "not-answered", "a call message that was decoded is not answered")))
            elif "Fbad" not in st.rs and "Fobj" in st.rs:
                self.late.append(("size", st.rs.get("Fsz", frozenset()), self.keyrep(ev, "ignored", "a well-formed message is dropped without being looked at")))
        for k in [k for k in st.rs if k.startswith("F")]: st.rs.pop(k)

    def keyrep(self, ev, kind, text):
        """a report that may be dropped later"""
        before = dict(self.violations)
        self.report(ev, kind, text)
        new = [k for k in self.violations if k not in before]
        out = [(k, self.violations.pop(k)) for k in new]
        return self.E.root, out

    def qwait(self, ev):
        self.clear_flags(ev)
        self.finish(ev)

    def next(self, ev):
        self.finish(ev)
        if ev.result is True:
            ev.st.rs["Fcur"] = TRUE
            if ev.obj is not None: ev.st.rs["Fobj"] = ev.obj

    def on_assume(self, ev):
        super().on_assume(ev)
        st = ev.st
        if "Fcur" in st.rs:
            c, val = ev.cond, ev.val
            while c.k == "not": c, val = c.a[0], not val
            if val and c.k == "cmp" and c.a[0] == "eq" and any(x.k == "mp" and x.a[0] == "size" for x in c.a[1:]) and any(x is C(0) for x in c.a[1:]): st.rs["Fgone"] = TRUE
        if "Fm" in st.rs: self.type_test(ev)
        if "Fcur" in st.rs and "Fm" not in st.rs and ev.val is not None:
            n = self.size_test(ev.cond)
            if n is not None: st.rs["Fsz"] = st.rs.get("Fsz", frozenset()) | {("eq" if n[1] == ev.val else "ne", n[0])}

    def type_test(self, ev):
        """the type of an element is compared with NIL, which is what is_nil does"""
        from models import ocont
        st, c, val = ev.st, ev.cond, ev.val
        while c.k == "not": c, val = c.a[0], not val
        if not (c.k == "cmp" and c.a[0] == "eq"): return
        x, y = c.a[1:]
        if isc(x): x, y = y, x
        if y is not C(0) or x.k != "ld": return
        a = x.a[0]
        if a.k not in ("tup", "al", "param", "sym", "at"): return
        v = ocont(self.E, st, a)
        p = self.position(st, v)
        if p is None: return
        st.rs["Fnil%d" % p] = TRUE if val else FALSE
        if val: st.mem[ps(a, "o")] = T("nil")
        else: st.mem[ps(a, "o")], st.mem[ps(a, "nn")] = v, TRUE

    def pointer_cell(self, addr):
        n = self.E.fullname(addr)
        cls, _, fld = n.rpartition("::")
        sd = self.P.struct_of(cls)
        return sd is None or any(f[0] == fld and ("ptr" in f[1] or "ptr" in (f[3] or "")) for f in sd["fields"])

    def size_test(self, c):
        """(N, truth of the condition that means equal) for a comparison of a loaded value with a constant"""
        neg = False
        while c.k == "not": c, neg = c.a[0], not neg
        if c.k == "cmp" and c.a[0] == "eq":
            x, y = c.a[1:]
            if isc(x): x, y = y, x
            if isc(y) and not isc(x): return y.a[0], not neg
        return None

    def convert(self, ev):
        st = ev.st
        if "Fcur" not in st.rs: return
        if not ev.ok:
            st.rs["Fbad"] = TRUE
            return
        if ev.types is None: return
        st.rs["Fm"] = T("msg", *ev.fields)
        st.rs["Fdst"] = ev.dst
        st.rs["Fty"] = T("types", *[kind_of(t) for t in ev.types])
        self.ok("message taken apart", ev.where())
        self.rtypes.setdefault(self.E.root, {}).setdefault(st.rs["Fty"].a, ev.where())

    def position(self, st, v):
        m = self.msg(st)
        if m is None or v is None: return None
        for i, f in enumerate(m.a):
            if f is v: return i
        return None

    # ---------------------------------------------------------------- functions, answers
    def elem(self, ev):
        st = ev.st
        k = getattr(ev, "key", None)
        self.carried_key(ev, k)
        targs = getattr(ev, "targs", None) or ()
        if "Fm" in st.rs and ev.kind == "elem" and any("ResultMeta" in t or "promise" in t for t in targs[1:2]):
            if ev.how in ("iter", "front"):
                if "Fkey" not in st.rs: st.rs["Fany"] = TRUE
            elif k is not None:
                st.rs.pop("Fany", None)
                st.rs["Fkey"] = TRUE
        if "Fm" not in st.rs or k is None or not isinstance(k, T): return
        p = self.position(st, k)
        if any("std::function<" in t and "object_handle" in t for t in targs[1:2]):
            st.rs["Fcall"] = TRUE
            if p is None: self.report(ev, "wrong-function", "the function is looked up by %s, which is not a field of the message" % show(k))
            else: self.role("call", "function", "reader", p, ev.where())
        elif any("ResultMeta" in t or "promise" in t for t in targs[1:2]):
            self.receiving.add(self.E.root)
            if p is None: self.report(ev, "wrong-id", "the pending call is looked up by %s, which is not a field of the answer" % show(k))
            else:
                self.role("answer", "id", "reader", p, ev.where())
                self.flagcheck(ev, "answer")

    def ekey(self, ev): self.elem(ev)

    def flagcheck(self, ev, what):
        """the kind of the message was checked"""
        st = ev.st
        m = self.msg(st)
        ty = st.rs.get("Fty")
        for i, f in enumerate(m.a):
            if ty is None or i >= len(ty.a) or ty.a[i] != "integer": continue
            known = [c for c in range(0, 16) if st.truth(cmp_("eq", f, C(c))) is True]
            self.ok("kind of the message checked", ev.where())
            if known: self.role(what, "kind=%d" % known[0], "reader", i, ev.where())
            else:
                out = [c for c in range(0, 16) if st.truth(cmp_("eq", f, C(c))) is False]
                self.late.append(("kind", what, out, self.keyrep(ev, "kind-not-checked", "%s is handled although its kind was not checked" % ("a call" if what == "call" else "an answer"))))

    def ucall(self, ev):
        st = ev.st
        if "Fm" not in st.rs:
            self.complete_cb(ev)
            return
        args = ev.call.args
        d = st.rs.get("Fdst")
        got = [x.a[1] for x in args if x.k == "tup" and x.a[0] is d]
        if not got:
            got = [p for p in (self.position(st, st.mem.get(ps(x, "o"))) for x in args if x.k in ("al", "at", "tup")) if p is not None]
        if not got:
            self.complete_cb(ev)
            return
        st.rs["Fcall"] = TRUE
        self.role("call", "arguments", "reader", got[0], ev.where())
        self.flagcheck(ev, "call")
        self.ok("bound function called", ev.where())
        if "Fu" in st.rs: self.report(ev, "called-twice", "a bound function is called more than once for one message")
        st.rs["Fu"] = TRUE
        if st.rs.get("Fn", C(0)).a[0]: self.report(ev, "answered-first", "the call is answered before its function has been called")

    def caught(self, ev):
        st = ev.st
        if "Fm" in st.rs and "Fu" in st.rs and "Fexc" not in st.rs and "Fn" not in st.rs: st.rs["Fexc"] = TRUE

    def outgoing(self, ev):
        """(packed content, strings) of a queued element that carries a message"""
        st = ev.st
        targs = getattr(ev, "targs", None) or ()
        for t in targs:
            ss, pp = self.fields(t)
            if not pp: continue
            for src in (getattr(ev, "src", None), ev.elem):
                if src is None: continue
                for o in pp:
                    p = st.mem.get(at(src, o))
                    if p is None: continue
                    pk = st.mem.get(ps(p, "pk"))
                    if pk is not None: return pk, [content(self.E, st, at(src, s)) for s in ss], src, p
        return None

    def insert(self, ev):
        st = ev.st
        self.elem(ev)
        o = self.outgoing(ev)
        if o is None:
            if "Fcur" in st.rs and self.is_thread() and any(self.fields(t)[1] for t in (getattr(ev, "targs", None) or ())):
                st.rs["Ftried"] = TRUE     # the content of what is queued is not known
            return
        pk, strs, src, p = o
        for t in ev.targs:
            ss, pp = self.fields(t)
            for k, v in st.mem.items():
                if v.k == "mp" and v.a[0] == "size" and base_of(k) is base_of(src) and k.k in ("at", "al"):
                    self.sizeoff.add((k.a[1] if k.k == "at" else 0) - (src.a[1] if src.k == "at" else 0))
        if self.is_thread(): self.answer(ev, pk, strs)
        else: self.call(ev, pk, strs)

    def answer(self, ev, pk, strs):
        st = ev.st
        self.answering.add(self.E.root)
        self.ok("answer queued", ev.where())
        n = st.rs.get("Fn", C(0)).a[0]
        if n: self.report(ev, "answered-twice", "a call message is answered more than once")
        st.rs["Fn"] = C(1)
        if "Fm" not in st.rs:
            self.report(ev, "no-call", "an answer is sent although no call was decoded")
            return
        ch = [self.position(st, s) for s in strs]
        if not any(p is not None for p in ch): self.report(ev, "wrong-channel", "the answer is sent to %s, which is not the channel named in the call" % ", ".join(map(show, strs)))
        else: self.role("call", "channel", "reader", next(p for p in ch if p is not None), ev.where())
        if not pk.a: return
        ids = [(j, self.position(st, x)) for j, x in enumerate(pk.a) if self.position(st, x) is not None]
        ids = [(j, p) for j, p in ids if st.rs["Fty"].a[p] == "string"]
        if not ids: self.report(ev, "wrong-id", "the answer does not carry the id of the call (%s)" % ", ".join(map(show, pk.a)))
        for j, p in ids[:1]:
            self.role("call", "id", "reader", p, ev.where())
            self.role("answer", "id", "writer", j, ev.where())
        for j, x in enumerate(pk.a):
            if isc(x): self.role("answer", "kind=%d" % x.a[0], "writer", j, ev.where())
        rest = [(j, x) for j, x in enumerate(pk.a) if not isc(x) and j not in [a for a, _ in ids]]
        if len(rest) != 2:
            if not ("Fu" in st.rs and "Fexc" not in st.rs) and not any(x.k == "val" for _, x in rest) and sum(x.k == "nil" for _, x in rest) >= 2:
                self.report(ev, "no-error", "%s but the answer contains no error" % ("the function has thrown an exception" if "Fexc" in st.rs else "no function was called"))
            return
        vals = [j for j, x in rest if x.k == "val"]
        nils = [j for j, x in rest if x.k == "nil"]
        others = [j for j, x in rest if x.k not in ("val", "nil")]
        if "Fu" in st.rs and "Fexc" not in st.rs:
            # the function has returned
            self.ok("answer with a result", ev.where())
            st.rs["Fkind"] = TRUE
            for j in others: self.role("answer", "result", "writer", j, ev.where())
            if vals: self.report(ev, "result-lost", "the function has returned but its answer is not the result (%s)" % ", ".join(show(x) for _, x in rest))
            elif not others and len(nils) == 2: self.late.append(("result", self.keyrep(ev, "result-lost", "the function has returned but its result is not sent")))
        else:
            self.ok("answer with an error", ev.where())
            for j in vals: self.role("answer", "error", "writer", j, ev.where())
            if not vals and len(nils) == 2:
                self.report(ev, "no-error", "%s but the answer contains no error" % ("the function has thrown an exception" if "Fexc" in st.rs else "no function was called"))

    # ---------------------------------------------------------------- calls
    def call(self, ev, pk, strs):
        st = ev.st
        root = self.E.root
        if not root.startswith("root_"): return
        ch, fn = T("ld", ps(T("param", "ch"), "s")), T("ld", ps(T("param", "f"), "s"))
        self.ok("call queued", ev.where())
        if ch not in strs: self.report(ev, "wrong-target", "the call is not addressed to the channel that was given (%s)" % ", ".join(map(show, strs)))
        others = [s for s in strs if s is not ch]
        if not pk.a: return
        ids = [j for j, x in enumerate(pk.a) if x in others]
        if not ids and others: self.report(ev, "wrong-id", "the message does not carry the id under which the call is registered (%s)" % ", ".join(map(show, pk.a)))
        for j in ids[:1]:
            self.role("call", "id", "writer", j, ev.where())
            for t in ev.targs:
                for s in self.fields(t)[0]:
                    for src in (getattr(ev, "src", None), ev.elem):
                        if src is not None and content(self.E, st, at(src, s)) is pk.a[j]: self.idoff.add(s)
        fns = [j for j, x in enumerate(pk.a) if x is fn]
        if not fns: self.report(ev, "wrong-function", "the message does not carry the name of the function")
        for j in fns: self.role("call", "function", "writer", j, ev.where())
        for j, x in enumerate(pk.a):
            if isc(x): self.role("call", "kind=%d" % x.a[0], "writer", j, ev.where())
            elif x.k == "subtuple": self.role("call", "arguments", "writer", j, ev.where())
            elif x is ch: self.report(ev, "wrong-channel", "the message names the target as the channel to answer to")
            elif j not in ids and j not in fns: self.role("call", "channel", "writer", j, ev.where())

    def pack(self, ev):
        st = ev.st
        if not ev.types or not ev.items: return
        what = "answer" if self.is_thread() else "call" if self.E.root.startswith("root_") else None
        if what: self.types.setdefault((what, "writer"), {}).setdefault(tuple(kind_of(t) for t in ev.types), ev.where())
        if what == "call" and ev.src is not None:
            # arguments in the order given
            for i, x in enumerate(ev.items):
                if x.k == "subtuple":
                    tt = ev.types[i]
                    self.args_order(ev, x.a[0], tt)

    def args_order(self, ev, d, tt):
        from models import tuple_types, item
        ts = tuple_types(tt) or ()
        st = ev.st
        want = {"integer": T("param", "i"), "string": T("ld", ps(T("param", "s"), "s"))}
        self.ok("arguments packed", ev.where())
        if [kind_of(t) for t in ts] != ["integer", "string"]:
            self.report(ev, "arguments", "the arguments are not packed in the order they were given (%s)" % ", ".join(kind_of(t) for t in ts))

    # ---------------------------------------------------------------- results
    def layout(self):
        if not hasattr(self, "_lay"):
            sd = self.P.struct_of("veigar::CallResult")
            self._lay = {f[0]: f[2] for f in sd["fields"]} if sd else {}
        return self._lay

    def result_at(self, ev, addr, how):
        """a result is handed over"""
        st = ev.st
        from models import ocont
        lay = self.layout()
        co, mo, oo = lay.get("errCode", 0), lay.get("errorMessage", 8), lay.get("obj", 40)
        code = st.mem.get(at(addr, co)) if ev.ins is None else self.E.load(st, at(addr, co), "i32", ev.ins, ev.frame, True)
        if code is None: return
        text = content(self.E, st, at(addr, mo))
        obj = ocont(self.E, st, at(addr, oo))
        self.ok("result handed over", ev.where())
        decoded = "Fm" in st.rs
        if decoded and "Fany" in st.rs and self.is_thread():
            m = self.msg(st)
            if not any(k.k == "streq" and v and any(self.position(st, x) is not None for x in k.a) for k, v in st.facts.items()):
                self.report(ev, "wrong-id", "the pending call that is completed was not looked up by the id of the answer")
        ok = st.truth(cmp_("eq", code, C(0)))
        if ok is True:
            if not decoded:
                self.report(ev, "false-success", "%s with a success code although no answer was decoded" % how)
                return
            if "Fthrow" in st.rs:
                self.report(ev, "false-success", "%s with a success code although the answer could not be decoded" % how)
            m = self.msg(st)
            err = st.rs.get("Ferr")
            nils = [i for i, f in enumerate(m.a) if st.rs.get("Fnil%d" % i) is TRUE]
            nonnil = [i for i, f in enumerate(m.a) if st.rs.get("Fnil%d" % i) is FALSE]
            p = self.position(st, obj)
            if text.k == "as":
                q = self.position(st, text.a[0])
                if q is not None: self.role("answer", "error", "reader", q, ev.where())
            elif nonnil and st.truth(isempty_(text)) is True:
                self.report(ev, "error-dropped", "the answer contains an error, but %s without it" % how)
            if p is not None: self.role("answer", "result", "reader", p, ev.where())
            elif not nonnil:
                self.late.append(("obj", self.keyrep(ev, "result-lost", "%s without the result of the answer" % how)))
            if not nils and not nonnil and text.k == "lit": self.report(ev, "error-dropped", "%s without looking at the error of the answer" % how)
        elif ok is False:
            if text.k == "lit" and text.a[0] == "":
                self.report(ev, "no-message", "%s with a failure code but without a message" % how)
            if decoded and "Fthrow" not in st.rs and self.E.root in self.receiving:
                self.report(ev, "false-failure", "%s with a failure code although the answer was received and decoded" % how)

    def mas(self, ev):
        st = ev.st
        if "Fm" in st.rs and not ev.ok: st.rs["Fthrow"] = TRUE

    def isnil(self, ev):
        p = self.position(ev.st, ev.o)
        if p is not None: ev.st.rs["Fnil%d" % p] = TRUE if ev.val else FALSE

    def pset(self, ev):
        if isinstance(ev.value, T) and ev.value.k != "none": self.result_at(ev, ev.value, "the call is completed")

    def complete_cb(self, ev):
        t = getattr(ev.call, "fn", None)
        sig = t.nm.dem if t is not None else ""
        if "CallResult const&" not in sig: return
        ev.st.rs["Gcb"] = TRUE
        for x in ev.call.args[1:]:
            if x.k in ("al", "at", "param", "sym"):
                self.result_at(ev, x, "the callback is called")
                return

    # ---------------------------------------------------------------- the sending threads
    def carried_key(self, ev, k):
        """the registry key of a call that was taken from the list of calls"""
        targs = getattr(ev, "targs", None) or ()
        if not self.is_thread() or not isinstance(k, T) or k.k != "ld" or k.a[0].k != "ps": return
        if not any("ResultMeta" in t or "promise" in t for t in targs[1:2]): return
        x = k.a[0].a[0]
        b = base_of(x)
        if b.k == "sym" and b.a[2] == "elem" and self.idoff and b.a[3] is not ev.cont:
            o = x.a[1] if x.k == "at" else 0
            self.ok("call registered under its id", ev.where())
            if o not in self.idoff: self.report(ev, "wrong-id", "the call is registered under %s, which is not its id" % show(k))

    def push(self, ev):
        st = ev.st
        d, n = ev.data, ev.size
        if d.k != "ld": return
        b = base_of(d.a[0])
        if b.k != "sym" or b.a[2] != "elem": return
        self.ok("message pushed", ev.where())
        if ev.mq.k == "ld" and base_of(ev.mq.a[0]).k == "param":
            # a queue that does not depend on the message: only for messages to the one it belongs to
            cmps = [v for k, v in st.facts.items() if k.k == "streq" and any(object_of(x) is b for x in k.a) and any(object_of(x).k == "param" for x in k.a)]
            if cmps and not any(cmps): self.report(ev, "wrong-target", "the message is pushed to %s although it is addressed to another channel" % self.E.nm(ev.mq.a[0]))
        if n.k == "ld" and base_of(n.a[0]) is b:
            o = n.a[0].a[1] if n.a[0].k == "at" else 0
            if self.sizeoff and o not in self.sizeoff: self.report(ev, "wrong-size", "the size that is pushed (%s) is not the size of the message" % show(n))
        elif isc(n) or (n.k == "ld" and base_of(n.a[0]).k == "sym"):
            self.report(ev, "wrong-size", "the size that is pushed (%s) is not the size of the message" % show(n))

    def malloc(self, ev):
        if "Fcur" in ev.st.rs: ev.st.rs["Fgone"] = TRUE

    # ---------------------------------------------------------------- exceptions
    def uncaught(self, ev):
        exc = ev.exc
        # what the caller's own callback throws while it is called by the interface is the caller's
        if ev.kind == "uncaught" and not self.is_thread() and "Gcb" in ev.st.rs: return
        k = exc[0] if exc else "?"
        self.report(ev, "uncaught", "an exception (%s) %s" % (k, "reaches a function that must not throw, which ends the process" if ev.kind == "terminate" else "leaves the thread procedure, which ends the process" if self.is_thread() else "leaves the interface"), where=self.E.root if ev.kind == "uncaught" else None)


    def exit(self, ev):
        self.ok("end of a root", "%s:%s" % (self.E.root, ev.how))
        if ev.how == "ret": self.finish(ev)
        f = ev.frame.fn if ev.frame is not None else None
        if ev.how == "ret" and f is not None and not self.is_thread() and f.args and f.args[0][2] == "sret" and f.nm.base.endswith("::root_sync"):
            self.result_at(ev, T("param", f.args[0][0]), "the call returns")

    # ---------------------------------------------------------------- conclusions
    def conclude(self):
        def add(kind, where, text):
            self.violations[(kind, where, "")] = {"rule": self.name, "kind": kind, "where": where, "function": "", "message": text, "root": "", "callstack": [], "path": []}
        lens = {w: {len(t) for t in d} for (w, side), d in self.types.items() if side == "writer"}
        what_of = lambda root: "call" if root in self.answering else "answer" if root in self.receiving else None
        for l in self.late:
            root, reps = l[-1]
            w = what_of(root)
            keep = False
            if l[0] == "answers": keep = w == "call"
            elif l[0] == "size": keep = w is not None and not any(("ne", n) in l[1] for n in lens.get(w, ()))
            elif l[0] == "kind": keep = True
            elif l[0] == "result": keep = "writer" not in self.roles.get(("answer", "result"), {})
            elif l[0] == "obj": keep = "reader" not in self.roles.get(("answer", "result"), {})
            if keep: self.violations.update(dict(reps))
        self.late = []
        for root, d in self.rtypes.items():
            w = what_of(root)
            if w is None: continue
            for rt, rw in d.items():
                for wt, ww in self.types.get((w, "writer"), {}).items():
                    self.ok("types of the fields of %s" % w, rw)
                    if len(rt) != len(wt): add("layout", rw, "%s is written with %d fields (%s) but read with %d" % (w, len(wt), ww, len(rt)))
                    else:
                        for i, (x, y) in enumerate(zip(wt, rt)):
                            if x != y and "any" not in (x, y): add("layout", rw, "field %d of %s is written as %s (%s) but read as %s" % (i, w, x, ww, y))
        for (w, role), d in sorted(self.roles.items()):
            if role.startswith("kind="): continue
            wr, rd = d.get("writer"), d.get("reader")
            if not wr or not rd: continue
            self.ok("position of the %s of %s" % (role, w), sorted(rd.values())[0])
            if set(wr) != set(rd):
                add("layout-" + role, sorted(rd.values())[0], "the %s of %s is written at position %s (%s) but read at position %s" % (role, w, sorted(wr), sorted(wr.values())[0], sorted(rd)))
        for w in ("call", "answer"):
            wr = {r: d["writer"] for (x, r), d in self.roles.items() if x == w and r.startswith("kind=") and "writer" in d}
            rd = {r: d["reader"] for (x, r), d in self.roles.items() if x == w and r.startswith("kind=") and "reader" in d}
            if wr and rd:
                self.ok("kind of %s" % w, "writer and reader")
                if set(wr) != set(rd): add("layout-kind", sorted(list(rd.values())[0].values())[0], "%s is written with %s but read with %s" % (w, sorted(wr), sorted(rd)))


def isempty_(t):
    from models import isempty
    return isempty(t)


def origin(x):
    """address a term was read from, or None"""
    if x.k == "ld": return x.a[0]
    if x.k == "sym" and len(x.a) > 3 and type(x.a[3]) is T: return x.a[3]


class Functor(Rule):
    """a bound function runs only with the right number of converted arguments, in order, and its result is returned"""
    name = "functor"
    ARRAY = 7

    def __init__(self):
        super().__init__()
        self.calls = 0
        self.argbase = T("param", "args")

    def root(self, f):
        self.argbase = T("param", f.args[-1][0])

    def whose(self, x):
        """address a value was read from"""
        while x.k in ("trunc", "zext", "sext", "cast"): x = x.a[-1] if type(x.a[-1]) is T else x.a[0]
        return origin(x)

    def handlers(self): return {"mp_convert": self.convert, "usercall": self.ucall, "mp_object": self.obj, "exit": self.exit}

    def convert(self, ev):
        if ev.ok and ev.types is not None: ev.st.rs["Uf"] = T("fields", *ev.fields)

    def ucall(self, ev):
        st = ev.st
        E = self.E
        self.calls += 1
        sret = ev.call.ins.get("t") is None and len(ev.call.args) > 0 and self.is_sret(ev)
        args = list(ev.call.args[1:] if sret else ev.call.args)
        n = len(args)
        self.ok("bound function called", ev.where() + " (%s)" % E.root[-60:])
        if "Ucall" in st.rs: self.report(ev, "called-twice", "the bound function is called more than once")
        st.rs["Ucall"] = TRUE
        if sret or ev.call.ins.get("t") is not None: st.rs["Uret"] = TRUE
        typ, lo, hi, seen = None, 0, None, False
        base = self.argbase
        for k, v in st.facts.items():
            if k.k != "cmp": continue
            op, x, y = k.a
            ax, ay = self.whose(x), self.whose(y)
            if ax is base and isc(y) and op == "eq":
                typ = (y.a[0], v) if typ is None or v else typ
            elif ay is base and isc(x) and op == "eq":
                typ = (x.a[0], v) if typ is None or v else typ
            elif isc(y) and ax is not None and base_of(ax) is base:
                seen = True
                if op == "eq" and v: lo = hi = y.a[0]
                elif op in ("ult", "slt") and v: hi = y.a[0] - 1 if hi is None else min(hi, y.a[0] - 1)
                elif op in ("ult", "slt"): lo = max(lo, y.a[0])
            elif isc(x) and ay is not None and base_of(ay) is base:
                seen = True
                if op == "eq" and v: lo = hi = x.a[0]
                elif op in ("ult", "slt") and v: lo = max(lo, x.a[0] + 1)
                elif op in ("ult", "slt"): hi = x.a[0] if hi is None else min(hi, x.a[0])
        if not seen: self.report(ev, "arguments", "a function with %d argument(s) is called although the number of arguments received was not checked" % n)
        elif (lo, hi) != (n, n): self.report(ev, "arguments", "a function with %d argument(s) is called for %s received" % (n, lo if lo == hi else "%s to %s" % (lo, "any number" if hi is None else hi)))
        if typ is None or typ[1] is not True or typ[0] != self.ARRAY: self.report(ev, "arguments", "a function is called although it was not checked that the arguments received are an array")
        f = st.rs.get("Uf")
        if n and f is None: self.report(ev, "arguments", "a function is called although its arguments were not converted")
        if f is None: return
        for i, x in enumerate(args):
            if x.k == "tup":
                if x.a[1] != i: self.report(ev, "arguments", "argument %d of the function is argument %d of the call" % (i, x.a[1]))
                continue
            c = x if x in f.a else content(E, st, x) if x.k == "al" else None
            if c in f.a and f.a.index(c) != i: self.report(ev, "arguments", "argument %d of the function is argument %d of the call" % (i, f.a.index(c)))

    def is_sret(self, ev):
        fn = ev.call.fn
        if fn is not None: return bool(fn.args and fn.args[0][2] == "sret")
        return bool(ev.call.ins.get("sret"))

    def returned(self, ev):
        """kind of the content of the object handle that is returned"""
        from models import ocont
        f = ev.frame.fn
        if not f.args or f.args[0][2] != "sret": return None
        p = ev.st.mem.get(T("param", f.args[0][0]))
        if p is None: return None
        return ocont(self.E, ev.st, p).k

    def obj(self, ev):
        if "Ucall" in ev.st.rs: ev.st.rs["Uobj"] = TRUE

    def exit(self, ev):
        st = ev.st
        if ev.how != "ret": return
        self.ok("functor returns", self.E.root[-60:])
        if "Ucall" not in st.rs: self.report(ev, "not-called", "success is returned although the bound function was not called", where=self.E.root)
        elif "Uret" in st.rs and ("Uobj" not in st.rs or self.returned(ev) == "nil"): self.report(ev, "result-lost", "the result of the bound function is not returned", where=self.E.root)


class Success(Rule):
    """isSuccess: a success code and no error message"""
    name = "success"

    def handlers(self): return {"exit": self.exit}

    def exit(self, ev):
        st = ev.st
        if ev.how != "ret" or ev.val is None: return
        self.ok("answer of isSuccess", self.E.root)
        P = T("param", "r")
        sd = self.E.P.struct_of("veigar::CallResult")
        lay = {f[0]: f[2] for f in sd["fields"]}
        msg = isempty_(T("ld", ps(at(P, lay["errorMessage"]), "s")))
        for v, s in self.split(st, ev.val):
            a = None
            for k, t in s.facts.items():
                if k.k == "cmp" and k.a[0] == "eq":
                    for x, y in ((k.a[1], k.a[2]), (k.a[2], k.a[1])):
                        if y is C(0) and origin(x) is at(P, lay["errCode"]): a = t
            b = s.truth(msg)
            if v and not (a is True and b is True): self.report(ev, "false-success", "success is reported although %s" % ("the code is not checked" if a is not True else "there may be an error message"), where=self.E.root)
            if not v and not (a is False or b is False): self.report(ev, "false-failure", "failure is reported for a result with a success code and without an error message", where=self.E.root)

    def split(self, st, val):
        t = st.truth(val)
        if t is not None: return [(t, st)]
        out = []
        for b in (True, False):
            s = st.clone()
            if s.assume(val, b): out.append((b, s))
        return out


class Transfer(Rule):
    """moving a result moves its code, its message and its value"""
    name = "transfer"

    def handlers(self): return {"exit": self.exit}

    def exit(self, ev):
        from models import ocont
        st = ev.st
        if ev.how != "ret": return
        a, b = T("param", "a"), T("param", "b")
        if st.truth(cmp_("eq", a, b)) is True: return
        lay = {f[0]: f[2] for f in self.E.P.struct_of("veigar::CallResult")["fields"]}
        self.ok("result moved", self.E.root)
        S = type(st)()
        for what, x, want in (("code", st.mem.get(at(a, lay["errCode"])), T("ld", at(b, lay["errCode"]))),
                              ("message", content(self.E, st, at(a, lay["errorMessage"])), content(self.E, S, at(b, lay["errorMessage"]))),
                              ("value", ocont(self.E, st, at(a, lay["obj"])), ocont(self.E, S, at(b, lay["obj"])))):
            if x is None or x is not want and (isc(x) or x.k == "lit" or origin(x) is not None and base_of(origin(x)) is a):
                self.report(ev, "result-lost", "the %s of a result is not taken along when it is moved: %s" % (what, show(x) if x is not None else "it is not set"), where=self.E.root)


class Convert(Rule):
    """convertObject: success exactly if the value was converted"""
    name = "convert"

    def handlers(self): return {"mp_as": self.mas, "exit": self.exit}

    def mas(self, ev): ev.st.rs["Vas"] = TRUE if ev.ok else FALSE

    def exit(self, ev):
        st = ev.st
        self.ok("conversion of a result", "%s:%s" % (self.E.root, ev.how))
        if ev.how != "ret":
            self.report(ev, "escapes", "the exception of a failed conversion leaves convertObject", where=self.E.root)
            return
        a = st.rs.get("Vas")
        v = st.truth(ev.val) if ev.val is not None else None
        if a is not TRUE and v is not False: self.report(ev, "false-success", "convertObject may report success although the value was not converted", where=self.E.root)
        if a is TRUE and v is not True: self.report(ev, "false-failure", "convertObject may report failure although the value was converted", where=self.E.root)
