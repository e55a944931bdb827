"""Linear obligations: every accepted call is completed exactly once (and every message buffer is freed exactly once).

An obligation is created by an API entry point (a promise, a callback, a malloc'ed buffer), travels through containers
whose elements carry it, and is discharged by a completion.  Each root is checked on its own:
what it takes out of a container it must discharge or place again, what is in a container belongs to whoever removes it."""
from terms import *
from engine import Rule
from models import content, fnval, is_map, key_off, strip_all
import re

PROMISE = "std::promise<veigar::CallResult>"
CALLBACK = "std::function<void (veigar::CallResult const&)>"


def norm(t):
    return t.replace(" ", "")


def nested_fields(P, sname, pred, seen=()):
    """(offset, field) of the fields, also nested ones, of a repository struct that satisfy pred(type, name)"""
    sd = P.struct_of(sname)
    out = []
    if not sd or sname in seen: return out
    for f in sd["fields"]:
        t = f[3] or f[1]
        if pred(t, f[0]): out.append((f[2], t, f[0]))
        sub = strip_all(t)
        if P.struct_of(sub) and "veigar::" in sub and "<" not in t:
            out += [(f[2] + o, tt, n) for o, tt, n in nested_fields(P, sub, pred, seen + (sname,))]
    return out


class Spec:
    """what makes an element of a container an obligation"""
    def __init__(self, P):
        self.P = P
        self.cache = {}

    def fields(self, t):
        """offsets (pointers, functions, discriminators) of an element type, None if it carries no obligation"""
        r = self.cache.get(t)
        if r is None:
            sp = strip_all(t) if "<" not in t else t
            ptrs, fns, dis = [], [], []
            for o, ty, n in nested_fields(self.P, sp, lambda t, n: True):
                k = self.kind(ty)
                if k == "p": ptrs.append(o)
                elif k == "cb": fns.append(o)
                elif k == "d": dis.append(o)
            if not ptrs and not fns:
                k = self.kind(t)
                if k == "p": ptrs = [0]
                elif k == "cb": fns = [0]
            r = self.cache[t] = (tuple(ptrs), tuple(fns), tuple(dis)) if ptrs or fns else ()
        return r or None


class CallSpec(Spec):
    def kind(self, t):
        n = norm(t)
        if re.search(r"shared_ptr<std::promise<veigar::CallResult>>|\*std::promise<veigar::CallResult>", n): return "p"
        if n in ("ResultCallback", "veigar::ResultCallback") or re.match(r"std::function<void\(constveigar::CallResult&\)>|std::function<void\(veigar::CallResultconst&\)>|function<void\(const(veigar::)?CallResult&\)>", n): return "cb"
        if n in ("int8_t", "uint8_t", "int", "char", "bool", "int32_t", "uint32_t") or n.endswith("Type"): return "d"
        return None


class BufSpec(Spec):
    def kind(self, t):
        n = norm(t)
        if n in ("ptr", "uint8_t*", "unsignedchar*", "char*", "void*"): return "p"
        return None


class Combo:
    """what the entry points put into the containers: values of the discriminator, which of promise / callback is set"""
    def __init__(self):
        self.set = {}     # element-independent: tuple of discriminator values -> (p nonnull, cb may be nonnull)

    def add(self, dis, p, cb):
        o = self.set.get(dis, (True, False))
        k = (p, cb)
        self.set.setdefault(dis, set()) if False else None
        self.set[dis] = k if dis not in self.set else (o[0] and p, o[1] or cb)


class LinearRule(Rule):
    name = "linear"
    noun = "obligation"

    def __init__(self, spec, combos=None, collect=None):
        super().__init__()
        self.spec = spec
        self.combos = combos          # Combo or None
        self.collect = collect        # Combo to fill, or None
        self.conts = {}               # class-level container name -> (fields, offset of the payload)
        self.contaddr = {}
        self.labels = {}              # label of element symbol -> (contname, fields, offset)
        self.places = set()
        self.takes = set()
        self.completions = set()
        self.release_roots = ()       # roots that may drop a registered obligation on the user's behalf
        self.dispose_roots = ()

    def handlers(self):
        return {"elem": self.on_elem, "insert": self.on_insert, "remove": self.on_remove, "erasekey": self.on_erasekey, "clear": self.on_clear,
                "swap": self.on_swap, "empty": self.on_empty, "iter_end": self.on_iter_end, "iter_next": self.on_iter_next, "contdtor": self.on_contdtor,
                "notfound": self.on_notfound, "unlock": self.on_unlock, "store": self.on_store, "fnstore": self.on_fnstore, "rename": self.on_rename,
                "exit": self.on_exit, "blocking": self.on_blocking, "contcopy": self.on_copy, "notinserted": self.on_notinserted, "lookup": self.on_lookup}

    def start(self, st, root):
        if getattr(self, "_eng", None) is not self.E:
            self._eng = self.E
            self.labels, self.contaddr = {}, {}

    # ------------------------------------------------ state: 't' origin -> (where, done, placed, pushed, flags)
    def recs(self, st): return st.rs.get(self.name, frozenset())

    def get(self, st, o):
        for r in self.recs(st):
            if r[0] is o: return r
        return None

    def put(self, st, rec, old=None):
        s = set(x for x in self.recs(st) if x[0] is not rec[0])
        s.add(rec)
        st.rs[self.name] = frozenset(s)

    def drop(self, st, o):
        st.rs[self.name] = frozenset(x for x in self.recs(st) if x[0] is not o)

    def cstate(self, st, cont): return dict(st.rs.get(self.name + "c", frozenset())).get(cont)

    def setc(self, st, cont, v):
        d = dict(st.rs.get(self.name + "c", frozenset()))
        if v is None: d.pop(cont, None)
        else: d[cont] = v
        st.rs[self.name + "c"] = frozenset(d.items())

    # ------------------------------------------------ containers
    def info(self, ev):
        """(name, fields, payload offset) if the container carries obligations"""
        a = ev.cont
        r = self.contaddr.get(a)
        if r is None:
            t = ev.targs
            if not t:
                n = self.E.nm(a)
                return self.conts.get(n)
            if is_map(ev.cls):
                f = self.spec.fields(t[1]) if len(t) > 1 else None
                off = key_off(t[0])
            else:
                f, off = self.spec.fields(t[0]), 0
            if f is None: r = False
            else:
                n = self.E.nm(a)
                r = (n, f, off)
                self.conts[n] = r
            self.contaddr[a] = r
        return r or None

    def payload(self, e):
        i = self.labels.get(e.a[0])
        return i

    def peek(self, st, a, fn=False):
        if fn: return fnval(self.E, st, a)
        v = st.mem.get(a)
        if v is not None: return v
        b = base_of(a)
        h = st.hv.get(b)
        if h is not None: return NULL if h.k == "zero" else T("ld", a, h)
        s = self.E.copied_from(st, a, b)
        if s is not None: return self.peek(st, s)
        if b.k == "al": return T("uninit", a)
        return T("ld", a)

    def origin(self, v):
        """origin of a promise pointer or function value"""
        if v is None or isc(v) or v.k == "uninit": return None
        if v.k == "sym" and v.a[2] == "heap": return v
        if v.k == "ld":
            b = base_of(v.a[0])
            if b.k == "sym" and b.a[2] == "elem" and b.a[0] in self.labels: return b
            return self.root_origin(v)
        return self.root_origin(v)

    def root_origin(self, v):
        return None

    def alias(self, st, o):
        for r in self.recs(st):
            if r[0] is o and type(r[4]) is T: return r[4]
        return o

    # ------------------------------------------------ events
    def on_elem(self, ev):
        i = self.info(ev)
        if not i: return
        st, e = ev.st, ev.elem
        self.labels[e.a[0]] = i
        if ev.how in ("new",): return
        al = None
        if ev.how in ("find", "index"):
            k = (i[0], getattr(ev, "key", None))
            for (n, key), o in st.rs.get(self.name + "k", frozenset()):
                if n == i[0] and key is k[1]: al = o
        self.takes.add((i[0], ev.where()))
        self.ok("element taken from " + i[0].split("::")[-1], ev.where())
        if ev.how == "iter":
            self.begin_iter(ev, e)
        self.put(st, (e, ("in", ev.cont), 0, frozenset(), al, frozenset()))

    def begin_iter(self, ev, e):
        cs = self.cstate(ev.st, ev.cont)
        if cs in (None, "full"): self.setc(ev.st, ev.cont, "walk")

    def on_iter_next(self, ev):
        """the element of an iteration is left behind"""
        if not (self.contaddr.get(ev.cont) or self.conts.get(self.E.nm(ev.cont))): return
        e = ev.elem
        if type(e) is not T: return
        r = self.get(ev.st, e)
        if r is None: return
        self.leave_elem(ev, r)

    def leave_elem(self, ev, r):
        st = ev.st
        if r[1][0] == "in":
            if r[2] == 0 and not self.vacuous(st, r[0]):
                if self.cstate(st, r[1][1]) == "walk": self.setc(st, r[1][1], "kept")
            elif r[2] >= 1 or self.vacuous(st, r[0]):
                if self.shared_cont(r[1][1]) is False or True:
                    pass

    def shared_cont(self, c): return base_of(c).k != "al"

    def on_iter_end(self, ev):
        if not (self.contaddr.get(ev.cont) or self.conts.get(self.E.nm(ev.cont))):
            if not (ev.targs and self.info(ev)): return
        cs = self.cstate(ev.st, ev.cont)
        if ev.empty: self.setc(ev.st, ev.cont, "empty")
        elif cs == "walk": self.setc(ev.st, ev.cont, "spent")

    def on_empty(self, ev):
        if not self.info(ev): return
        if ev.result: self.setc(ev.st, ev.cont, "empty")

    def on_insert(self, ev):
        i = self.info(ev)
        if not i: return
        st, e = ev.st, ev.elem
        self.labels[e.a[0]] = i
        key = getattr(ev, "key", None)
        if self.cstate(st, ev.cont) in ("empty", "spent"): self.setc(st, ev.cont, "full" if not self.shared_cont(ev.cont) else None)
        elif not self.shared_cont(ev.cont): self.setc(st, ev.cont, "full")
        if ev.how == "index":
            st.rs[self.name + "i"] = st.rs.get(self.name + "i", frozenset()) | {(e, key if key is not None else NULL)}
            return
        self.place_cells(ev, i, e, key)

    def on_notinserted(self, ev):
        """the keys of obligations are unique (C15): unless it was put there on this path, the key is not in the container"""
        i = self.info(ev)
        if not i: return
        if ev.key is None or not any(x[0] == (i[0], ev.key) for x in ev.st.rs.get(self.name + "k", frozenset())): ev.veto.append(self)

    def on_lookup(self, ev):
        """likewise: the key of an obligation that this path holds and did not put there is not in the container"""
        i = self.info(ev)
        k = ev.key
        if not i or k is None: return
        t = k
        while t.k in ("ld", "at", "ps"): t = t.a[0]
        r = self.get(ev.st, self.alias(ev.st, t)) if t.k == "sym" and t.a[2] == "elem" else None
        if r is None or r[1][0] != "own" or i[0] in r[3]: return
        if any(x[0] == (i[0], k) for x in ev.st.rs.get(self.name + "k", frozenset())): return
        if i[0] in {n for n, x in self.conts.items() if x[2]} and self.conts.get(self.labels.get(t.a[0], (None,))[0], (0, 0, True))[2] is not True: ev.veto.append(self)

    def place_cells(self, ev, i, e, key):
        st = ev.st
        n, (ptrs, fns, dis), off = i
        vals = [self.peek(st, at(e, off + o)) for o in ptrs]
        fvals = [self.peek(st, at(e, off + o), True) for o in fns]
        if self.collect is not None:
            d = tuple(self.peek(st, at(e, off + o)) for o in dis)
            self.collect.add(tuple((o, x.a[0]) for o, x in zip(dis, d) if isc(x)), any(not isc(v) for v in vals), any(not isc(v) for v in fvals))
        done = set()
        for v in vals + fvals:
            o = self.origin(v)
            if o is not None and o not in done:
                done.add(o)
                self.place(ev, o, i[0], key)

    def place(self, ev, o, contname, key):
        st = ev.st
        o = self.alias(st, o)
        r = self.get(st, o)
        if r is None: r = (o, ("own",), 0, frozenset(), None, frozenset())
        self.places.add((contname, ev.where()))
        self.ok("placed into " + contname.split("::")[-1], ev.where())
        if r[2] > 0: self.report(ev, "placed-after-completion", "the %s is put into %s although it has been completed" % (self.noun, contname))
        self.put(st, (o, r[1], r[2], r[3] | {contname}, r[4], r[5]))
        if key is not None:
            st.rs[self.name + "k"] = frozenset(x for x in st.rs.get(self.name + "k", frozenset()) if x[0] != (contname, key)) | {((contname, key), o)}
        self.placed(ev, o, contname, key)

    def placed(self, ev, o, contname, key): pass

    def on_store(self, ev):
        b = base_of(ev.addr)
        if b.k == "sym" and b.a[2] == "elem": self.slot(ev, b, ev.addr, ev.val, False)

    def on_fnstore(self, ev):
        b = base_of(ev.addr)
        if b.k == "sym" and b.a[2] == "elem": self.slot(ev, b, ev.addr, ev.val, True)

    def slot(self, ev, e, addr, val, fn):
        idx = [x for x in ev.st.rs.get(self.name + "i", frozenset()) if x[0] is e]
        if not idx: return
        i = self.labels.get(e.a[0])
        if not i: return
        o = (addr.a[1] if addr.k == "at" else 0) - i[2]
        if o not in (i[1][1] if fn else i[1][0]): return
        og = self.origin(val)
        if og is not None:
            self.place(ev, og, i[0], idx[0][1] if idx[0][1] is not NULL else None)

    def on_remove(self, ev):
        i = self.info(ev)
        if not i: return
        st = ev.st
        if ev.elem is None:
            cs = self.cstate(st, ev.cont)
            if cs not in ("empty", "spent"):
                self.report(ev, "dropped", "an element of %s is removed without being looked at" % i[0])
            return
        r = self.get(st, ev.elem)
        if r is None: return
        if "stale" in r[5]:
            self.report(ev, "stale-removal", "the element of %s was looked up in an earlier critical section, another thread may have taken it" % i[0])
        if type(r[4]) is T:
            self.unplace(st, r[4], i[0], True)
            self.put(st, (r[0], ("gone",), r[2], r[3], r[4], r[5]))
            return
        self.ok("removed from " + i[0].split("::")[-1], ev.where())
        self.put(st, (r[0], ("own",), r[2], r[3], r[4], r[5] | ({"dropok"} if self.may_drop(st) else frozenset())))

    def may_drop(self, st):
        return self.E.root in self.release_roots or "got" in st.rs.get(self.name + "g", frozenset())

    def on_blocking(self, ev):
        # the caller has waited for the result, what is left of the call may be dropped
        if ev.what.startswith("future::"): ev.st.rs[self.name + "g"] = frozenset(("got",))

    def unplace(self, st, o, contname, found):
        r = self.get(st, o)
        if r is not None:
            self.put(st, (o, r[1], r[2], r[3] - {contname}, r[4], r[5] | ({"claimed"} if found else frozenset())))

    def on_erasekey(self, ev):
        i = self.info(ev)
        if not i: return
        st = ev.st
        for (n, key), o in st.rs.get(self.name + "k", frozenset()):
            if n == i[0] and key is ev.key:
                self.unplace(st, o, n, False)
                return
        for r in self.recs(st):
            if r[1] == ("in", ev.cont): 
                self.put(st, (r[0], ("own",), r[2], r[3], r[4], r[5]))
                return
        if not self.may_drop(ev.st):
            self.report(ev, "dropped", "an element of %s is erased without being looked at" % i[0])

    def on_notfound(self, ev):
        i = self.info(ev)
        if not i: return
        for (n, key), o in ev.st.rs.get(self.name + "k", frozenset()):
            if n == i[0] and key is ev.key: self.unplace(ev.st, o, n, False)

    def on_clear(self, ev):
        i = self.info(ev)
        if not i: return
        cs = self.cstate(ev.st, ev.cont)
        ne = ev.st.mem.get(ps(ev.cont, "ne"))
        if cs not in ("empty", "spent") and ne is not FALSE and not self.may_drop(ev.st):
            self.report(ev, "dropped", "%s is cleared while it may hold unfinished elements" % i[0])
        self.setc(ev.st, ev.cont, "empty")

    def on_swap(self, ev):
        if ev.targs: i = self.info(ev)
        else: i = self.contaddr.get(ev.cont) or self.contaddr.get(ev.other) or self.conts.get(self.E.nm(ev.cont)) or self.conts.get(self.E.nm(ev.other))
        if not i: return
        for c in (ev.cont, ev.other):
            if not self.contaddr.get(c):
                n = self.E.nm(c)
                self.contaddr[c] = (n, i[1], i[2])
                self.conts.setdefault(n, (n, i[1], i[2]))
        st = ev.st
        a, b = self.cstate(st, ev.cont), self.cstate(st, ev.other)
        # shared containers hold anything unless known otherwise, local ones only what was put there
        a = a or ("full" if self.shared_cont(ev.cont) else "empty")
        b = b or ("full" if self.shared_cont(ev.other) else "empty")
        if ev.move:
            if a == "full": self.report(ev, "dropped", "%s is overwritten while it may hold unfinished elements" % i[0])
            a = "empty"
        self.setc(st, ev.cont, b)
        self.setc(st, ev.other, a)

    def on_copy(self, ev):
        pass

    def on_contdtor(self, ev):
        i = self.info(ev)
        if not i: return
        cs = self.cstate(ev.st, ev.cont)
        if cs in ("full", "kept", "walk") and not self.shared_cont(ev.cont):
            self.report(ev, "dropped", "%s is destroyed while it may hold unfinished elements" % i[0])
        self.setc(ev.st, ev.cont, None)
        for r in list(self.recs(ev.st)):
            if r[1] == ("in", ev.cont): self.drop(ev.st, r[0])

    def on_unlock(self, ev):
        if not self.recs(ev.st): return
        for r in list(self.recs(ev.st)):
            if r[1][0] == "in" and self.shared_cont(r[1][1]) and "stale" not in r[5] and ev.lk == "mutex":
                self.put(ev.st, (r[0], r[1], r[2], r[3], r[4], r[5] | {"stale"}))

    # ------------------------------------------------ completion
    def complete(self, ev, o, how):
        st = ev.st
        o = self.alias(st, o)
        r = self.get(st, o)
        if r is None: r = (o, ("own",), 0, frozenset(), None, frozenset())
        self.completions.add(ev.where())
        self.ok(how, ev.where())
        if "stale" in r[5] and r[1][0] == "in":
            self.report(ev, "not-claimed", "the %s is discharged by %s but another thread may have taken it out of its container meanwhile" % (self.noun, how))
        if r[2] >= 1:
            self.report(ev, "twice", "the %s is discharged a second time (%s)" % (self.noun, how))
        self.put(st, (o, r[1], min(r[2] + 1, 2), r[3], r[4], r[5]))
        self.completed(ev, o, r)

    def completed(self, ev, o, r): pass

    def vacuous(self, st, o): return False

    # ------------------------------------------------ end of life
    def on_rename(self, ev):
        for r in list(self.recs(ev.st)):
            if r[0] is ev.old: self.drop(ev.st, r[0])
        r = self.get(ev.st, ev.sym)
        if r is not None:
            self.settle(ev, r, "another round")
            if r[1][0] != "in": self.drop(ev.st, r[0])
        for sfx in ("i",):
            s = ev.st.rs.get(self.name + sfx)
            if s: ev.st.rs[self.name + sfx] = frozenset(x for x in s if x[0] is not ev.sym)
        s = ev.st.rs.get(self.name + "k")
        if s: ev.st.rs[self.name + "k"] = frozenset(x for x in s if x[1] is not ev.sym)

    def settle(self, ev, r, when):
        o, where, done, placed, al, fl = r
        st = ev.st
        if al is not None: return
        if where[0] == "in":
            if done and self.shared_cont(where[1]) and self.cstate(st, where[1]) not in ("spent", "empty", "walk"):
                self.report(ev, "left-registered", "the %s is discharged but its element stays in its container" % self.noun)
            return
        if where[0] == "gone": return
        if done and placed:
            self.report(ev, "left-registered", "the %s is discharged although it is still in %s" % (self.noun, ", ".join(placed)))
        elif not done and not placed and not self.vacuous(st, o) and "dropok" not in fl:
            self.report(ev, "lost", "the %s is neither discharged nor handed on (%s)" % (self.noun, when))
        self.settled(ev, r)

    def settled(self, ev, r): pass

    def gc(self, st):
        """records nobody can refer to any more and that owe nothing are forgotten"""
        rs = self.recs(st)
        ix = st.rs.get(self.name + "i")
        if not rs and not ix: return
        live = st.reach(False)
        if ix:
            # elements in containers that nothing refers to are not looked at again
            held = {r[0] for r in rs}
            st.rs[self.name + "i"] = frozenset(x for x in ix if x[0].syms <= live or x[0] in held)
        if not rs: return
        out = set()
        ch = False
        for r in rs:
            if not (r[0].syms <= live):
                if r[1][0] == "gone" or (r[1][0] == "in" and not r[2]) or (r[1][0] == "own" and r[2] == 1 and not r[3]):
                    ch = True
                    continue
            out.add(r)
        if ch:
            st.rs[self.name] = frozenset(out)
            gone = {r[0] for r in rs} - {r[0] for r in out}
            for sfx in ("i", "k"):
                x = st.rs.get(self.name + sfx)
                if x: st.rs[self.name + sfx] = frozenset(y for y in x if not any(type(z) is T and z in gone for z in y))

    def on_exit(self, ev):
        for r in sorted(self.recs(ev.st), key=lambda r: r[0].id):
            self.settle(ev, r, "exit of the root")
        self.exit(ev)
        ev.st.rs[self.name] = frozenset()
        for sfx in ("i", "k", "c", "g"): ev.st.rs.pop(self.name + sfx, None)

    def exit(self, ev): pass


# ---------------------------------------------------------------------------------------------------------- calls
class CallTokens(LinearRule):
    name = "call"
    noun = "call"

    def handlers(self):
        h = super().handlers()
        h.update({"promise_set": self.on_promise_set, "usercall": self.on_usercall, "new": self.on_new, "q_push": self.on_push, "q_unlock": self.on_q_unlock, "ptr_dtor": self.on_ptr_dtor})
        return h

    def start(self, st, root):
        super().start(st, root)
        if self.E.root == "root_async_cb" or "async_cb" in root:
            v = T("ld", ps(T("param", "cb"), "fn"))
            st.rs[self.name] = frozenset({(v, ("own",), 0, frozenset(), None, frozenset({"api"}))})

    def root_origin(self, v):
        if v.k == "ld" and v.a[0].k == "ps" and v.a[0].a[1] == "fn" and base_of(v.a[0]).k == "param": return v
        return None

    def on_new(self, ev):
        if norm(PROMISE) in norm(ev.type):
            self.put(ev.st, (ev.ptr, ("own",), 0, frozenset(), None, frozenset({"api"})))
            self.ok("promise created", ev.where())

    def on_promise_set(self, ev):
        o = self.origin(ev.p)
        if o is not None: self.complete(ev, o, "promise::set_value")

    def on_usercall(self, ev):
        o = self.origin(ev.target)
        if o is not None and (o.k == "ld" or self.get(ev.st, o) is not None or o.k == "sym"):
            self.complete(ev, o, "callback")

    def on_ptr_dtor(self, ev): pass

    def on_push(self, ev):
        """the message becomes visible to the target when the queue lock is released (at once if it is not held)"""
        o = self.origin_of_data(ev)
        if o is None: return
        o = self.alias(ev.st, o)
        r = self.get(ev.st, o)
        if r is None: return
        self.ok("push of a call message", ev.where())
        if not ev.ok: return
        fl = r[5] | {"pushed"}
        if not r[3]:
            if ("rw", ev.mq) not in ev.st.locks: self.early(ev)
            else: fl |= {"early"}
        self.put(ev.st, (o, r[1], r[2], r[3], r[4], fl))

    def early(self, ev):
        self.report(ev, "push-before-register", "the message of the call is visible to the target before the call is registered, its response may find nobody")

    def on_q_unlock(self, ev):
        for r in list(self.recs(ev.st)):
            if "early" in r[5]:
                if not r[3]: self.early(ev)
                self.put(ev.st, (r[0], r[1], r[2], r[3], r[4], r[5] - {"early"}))

    def origin_of_data(self, ev):
        v = ev.data
        if v.k == "ld":
            b = base_of(v.a[0])
            if b.k == "sym" and b.a[2] == "elem" and b.a[0] in self.labels: return b
        return None

    def completed(self, ev, o, r):
        if "pushed" in r[5] and "claimed" not in r[5]:
            self.report(ev, "completed-after-push", "the call is completed locally although its message has been delivered, the response may complete it too")

    def settled(self, ev, r):
        o, where, done, placed, al, fl = r
        if placed and not done and "api" not in fl and "pushed" not in fl and "registry" in self.role(placed):
            self.report(ev, "registered-not-sent", "the call stays registered although its message was not pushed, nobody will answer it")

    def role(self, placed):
        """a keyed container is the registry of calls waiting for their response, others are queues"""
        return {"registry" if self.conts[n][2] else "queue" for n in placed if n in self.conts}

    def settle(self, ev, r, when):
        # an API call that leaves by an exception reports to its caller that way
        if ev.kind == "exit" and ev.how == "exc" and "api" in r[5] and not (r[2] and r[3]): return
        super().settle(ev, r, when)

    def feasible(self, st):
        if not self.combos: return True
        for r in self.recs(st):
            e = r[0]
            if e.k != "sym" or e.a[2] != "elem" or type(r[4]) is T: continue
            if not self.options(st, e): return False
        return True

    def options(self, st, e):
        i = self.labels.get(e.a[0])
        if not i: return [1]
        n, (ptrs, fns, dis), off = i
        out = []
        for d, (p, cb) in self.combos.set.items():
            dd = dict(d)
            bad = False
            for o0, c in d:
                # discriminators are the same fields, seen at the offset of this element type
                o = self.map_off(o0, dis)
                if o is None: continue
                if st.truth(cmp_("eq", T("ld", at(e, off + o)), C(c))) is False: bad = True; break
            if bad: continue
            if p and any(st.truth(cmp_("eq", T("ld", at(e, off + o)), NULL)) is True for o in ptrs): continue
            if not p and any(st.truth(cmp_("eq", T("ld", at(e, off + o)), NULL)) is False for o in ptrs): continue
            if not cb and any(st.truth(cmp_("eq", T("ld", ps(at(e, off + o), "fn")), NULL)) is False for o in fns): continue
            out.append((p, cb))
        return out

    def map_off(self, o0, dis):
        """offset of the discriminator in this element type"""
        base = self.combo_dis
        return dis[base.index(o0)] if o0 in base and base.index(o0) < len(dis) else None

    def vacuous(self, st, o):
        if o.k == "ld": return st.truth(cmp_("eq", o, NULL)) is True
        if o.k != "sym" or o.a[2] != "elem" or not self.combos: return False
        i = self.labels.get(o.a[0])
        if not i: return False
        n, (ptrs, fns, dis), off = i
        opts = self.options(st, o)
        return bool(opts) and all(cb and not p for p, cb in opts) and all(st.truth(cmp_("eq", T("ld", ps(at(o, off + f), "fn")), NULL)) is True for f in fns)


# ---------------------------------------------------------------------------------------------------------- buffers
class BufTokens(LinearRule):
    """heap buffers: allocated, handed on through containers, released exactly once and not used afterwards"""
    name = "buffer"
    noun = "buffer"

    def __init__(self, spec, **kw):
        super().__init__(spec, **kw)
        self.allocs = set()

    def handlers(self):
        h = super().handlers()
        h.update({"malloc": self.on_malloc, "realloc": self.on_realloc, "free": self.on_free, "opdelete": self.on_delete, "anycall": self.on_call, "q_push": self.on_push, "load": self.on_access, "store": self.on_access2})
        h["thread_join"] = self.on_join
        h.pop("fnstore", None)
        return h

    helper = False        # the root is a function of the library that others call: it may hand a buffer to its caller
    handed = False

    def on_exit(self, ev):
        if self.helper and ev.how == "ret":
            for r in list(self.recs(ev.st)):
                if self.origin(ev.val) is r[0] or any(base_of(k).k in ("param", "ld") and type(v) is T and self.origin(v) is r[0] for k, v in ev.st.mem.items()):
                    self.handed = True
                    self.ok("buffer handed to the caller", ev.where())
                    self.drop(ev.st, r[0])
        super().on_exit(ev)

    def on_blocking(self, ev): pass

    def may_drop(self, st): return False

    def origin(self, v):
        if v is None or type(v) is not T or isc(v): return None
        while v.k in ("at", "ix"): v = v.a[0]
        if v.k == "sym" and v.a[2] == "heap" and v in self.allocs: return v
        if v.k == "sym" and v.a[2] == "heap" and v.a[1] and any(x.a[0] == v.a[0] for x in self.allocs): return v
        if v.k == "ld":
            b = base_of(v.a[0])
            if b.k == "sym" and b.a[2] == "elem" and b.a[0] in self.labels and v.a[0].k in ("at", "sym"):
                n, (ptrs, fns, dis), off = self.labels[b.a[0]]
                o = v.a[0].a[1] if v.a[0].k == "at" else 0
                if o - off in ptrs: return b
        return None

    def on_malloc(self, ev):
        self.allocs.add(ev.ptr)
        self.put(ev.st, (ev.ptr, ("own",), 0, frozenset(), None, frozenset()))
        self.ok("buffer allocated", ev.where())

    def on_free(self, ev):
        if isc(ev.ptr): return
        o = self.origin(ev.ptr)
        if o is None: return
        if ev.ptr.k in ("at", "ix"): self.report(ev, "wrong-address", "the address released is not the one that was allocated")
        self.complete(ev, o, "free")

    def on_realloc(self, ev):
        o = self.origin(ev.old)
        if o is not None: self.complete(ev, o, "realloc")

    def on_delete(self, ev):
        o = self.origin(ev.ptr)
        if o is not None:
            self.report(ev, "wrong-release", "a buffer allocated with malloc is released with delete")
            self.complete(ev, o, "delete")

    def used(self, ev, v, how):
        o = self.origin(v)
        if o is None: return
        o = self.alias(ev.st, o)
        r = self.get(ev.st, o)
        if r is None: return
        self.ok("buffer used while it is owned", ev.where())
        if r[2] >= 1: self.report(ev, "used-after-release", "the buffer is used by %s after it was released" % how)
        elif r[3] and "shared" in r[5]: self.report(ev, "used-after-hand-over", "the buffer is used by %s after it was handed to another thread" % how)

    def on_call(self, ev):
        nm = ev.call.nm.base if ev.call.nm else "?"
        if nm in ("free", "realloc"): return
        for a in ev.call.args: self.used(ev, a, nm)

    def on_push(self, ev): self.used(ev, ev.data, "pushBack")

    def on_access(self, ev): 
        if ev.addr.k in ("ld",) or (ev.addr.k in ("at", "ix") and base_of(ev.addr).k == "ld"): self.used(ev, base_of(ev.addr), "a read")

    def on_access2(self, ev):
        super().on_store(ev)
        if ev.addr.k in ("ld",) or (ev.addr.k in ("at", "ix") and base_of(ev.addr).k == "ld"): self.used(ev, base_of(ev.addr), "a write")

    def on_store(self, ev): super().on_store(ev)

    def on_unlock(self, ev):
        super().on_unlock(ev)
        for r in list(self.recs(ev.st)):
            if r[3] and not r[2] and ev.lk == "mutex" and "shared" not in r[5]:
                self.put(ev.st, (r[0], r[1], r[2], r[3], r[4], r[5] | {"shared"}))

    def complete(self, ev, o, how):
        st = ev.st
        o2 = self.alias(st, o)
        r = self.get(st, o2)
        if r is not None and r[3] and "shared" in r[5] and not r[2]:
            self.report(ev, "released-after-hand-over", "the buffer is released by %s although it was handed to another thread" % how)
        super().complete(ev, o, how)

    def vacuous(self, st, o):
        if o.k == "sym" and o.a[2] == "heap": return st.truth(cmp_("eq", o, NULL)) is True
        if o.k != "sym" or o.a[2] != "elem": return False
        i = self.labels.get(o.a[0])
        if not i: return False
        n, (ptrs, fns, dis), off = i
        return bool(ptrs) and all(st.truth(cmp_("eq", T("ld", at(o, off + p)), NULL)) is True for p in ptrs)

    # ------------------------------------------------ nothing is left when the instance is uninitialised
    carriers = ()        # names of the containers that buffers are placed into
    step = None

    def on_join(self, ev): ev.st.rs[self.name + "j"] = frozenset((1,))

    def exit(self, ev):
        st = ev.st
        j = st.rs.pop(self.name + "j", None)
        if self.step not in ("uninit", "dtor") or not j or ev.how != "ret": return
        left = {self.E.nm(c): v for c, v in dict(st.rs.get(self.name + "c", frozenset())).items()}
        for n in sorted(self.carriers):
            self.ok("%s drained when the instance is uninitialised" % n.split("::")[-1], self.E.root)
            if left.get(n) not in ("empty", "spent"):
                self.report(ev, "left-behind", "the buffers still in %s are not released when the instance is uninitialised" % n, where=n)
